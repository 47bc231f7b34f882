#include "c23_map.hpp"
typedef Whole_dist W; typedef Block_dist B; typedef Cyclic_dist C;
PROP(map_tensor_bbb, 200, 6000) { mapped<3, B, B, B>(g); }
PROP(map_tensor_ccc, 200, 6000) { mapped<3, C, C, C>(g); }
PROP(map_tensor_wcb, 150, 5000) { mapped<3, W, C, B>(g); }
PROP(map_tensor_bwc, 150, 5000) { mapped<3, B, W, C>(g); }
PROP(map_tensor_cbw, 150, 5000) { mapped<3, C, B, W>(g); }

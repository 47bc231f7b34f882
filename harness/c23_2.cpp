#include "c23_map.hpp"
typedef Whole_dist W; typedef Block_dist B; typedef Cyclic_dist C;
PROP(map_matrix_block_cyclic, 300, 10000) { mapped<2, B, C, W>(g); }
PROP(map_matrix_cyclic_cyclic, 300, 10000) { mapped<2, C, C, W>(g); }
PROP(map_matrix_whole_block, 200, 6000) { mapped<2, W, B, B>(g); }
PROP(map_matrix_cyclic_whole, 200, 6000) { mapped<2, C, W, C>(g); }
PROP(map_matrix_block_whole, 200, 6000) { mapped<2, B, W, B>(g); }

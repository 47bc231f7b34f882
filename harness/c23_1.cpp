#include "c23_map.hpp"
typedef Whole_dist W; typedef Block_dist B; typedef Cyclic_dist C;
PROP(map_vector_block, 600, 20000) { mapped<1, B, W, W>(g); }
PROP(map_vector_cyclic, 600, 20000) { mapped<1, C, W, W>(g); }
PROP(map_vector_whole, 60, 2000) { mapped<1, W, W, W>(g); }
PROP(map_matrix_block_block, 300, 10000) { mapped<2, B, B, W>(g); }
PROP(map_matrix_cyclic_block, 300, 10000) { mapped<2, C, B, W>(g); }

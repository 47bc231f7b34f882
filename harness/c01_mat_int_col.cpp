#include "c01_walk.hpp"
PROP(matrix_int_col, 48000, 1600000) { c01::mat<3, Dense<2, int, col2_type>>(g); }

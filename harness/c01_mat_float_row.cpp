#include "c01_walk.hpp"
PROP(matrix_float_row, 48000, 1600000) { c01::mat<3, Dense<2, float, row2_type>>(g); }

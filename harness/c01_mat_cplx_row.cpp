
#include "c01_walk.hpp"
PROP(matrix_complex_row, 36000, 1200000) { c01::mat<2, Dense<2, std::complex<float>, row2_type>>(g); }

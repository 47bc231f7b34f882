#include "c01_walk.hpp"
PROP(matrix_padded_row, 36000, 1200000) { c01::mat<2, ovxx::Strided<2, short, Layout<2, row2_type, aligned_32, array>>>(g); }
PROP(matrix_complex_padded_col, 36000, 1200000) { c01::mat<2, ovxx::Strided<2, std::complex<float>, Layout<2, col2_type, aligned_16, array>>>(g); }

#define C01_NOREF
#include "c01_walk.hpp"
PROP(matrix_complex_split_col, 36000, 1200000) { c01::mat<2, ovxx::Strided<2, std::complex<double>, Layout<2, col2_type, dense, split_complex>>>(g); }
PROP(tensor_split_padded_102, 48000, 1600000) { c01::ten<1, ovxx::Strided<3, std::complex<float>, Layout<3, tuple<1, 0, 2>, aligned_32, split_complex>>>(g); }

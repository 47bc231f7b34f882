#include "c01_walk.hpp"
PROP(vector_float, 36000, 1200000) { c01::vec<4, Dense<1, float>>(g); }
PROP(vector_complex, 36000, 1200000) { c01::vec<3, Dense<1, std::complex<float>>>(g); }
PROP(vector_complex_split, 36000, 1200000) { c01::vec<3, ovxx::Strided<1, std::complex<float>, Layout<1, row1_type, dense, split_complex>>>(g); }

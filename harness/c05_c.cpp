#include "c05_red.hpp"
PROP(vectors_c, 10000, 150000) { vec<std::complex<float>, V_all>(g, 1, 100); }
PROP(matrices_c, 8000, 120000) { mat<std::complex<float>, M_all>(g, 12); }
PROP(long_vectors_c, 240, 4000) { vec<std::complex<float>, V_dense + V_subset + V_col + V_other>(g, 4000, 13000); }

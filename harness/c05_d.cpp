#include "c05_red.hpp"
PROP(vectors_d, 10000, 150000) { vec<double, V_basic>(g, 1, 100); }
PROP(matrices_d, 8000, 120000) { mat<double, M_basic>(g, 12); }
PROP(long_vectors_d, 240, 4000) { vec<double, V_dense + V_subset + V_col + V_other>(g, 4000, 13000); }

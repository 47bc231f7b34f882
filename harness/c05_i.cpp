#include "c05_red.hpp"
PROP(vectors_i, 10000, 150000) { vec<int, V_all>(g, 1, 100); }
PROP(matrices_i, 8000, 120000) { mat<int, M_all>(g, 12); }
PROP(long_vectors_i, 240, 4000) { vec<int, V_dense + V_subset + V_col + V_other>(g, 4000, 13000); }

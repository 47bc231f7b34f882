#include "c05_red.hpp"
PROP(vectors_b, 10000, 150000) { vec<bool, V_all>(g, 1, 100); }
PROP(matrices_b, 8000, 120000) { mat<bool, M_all>(g, 12); }
PROP(long_vectors_b, 240, 4000) { vec<bool, V_dense + V_subset + V_col + V_other>(g, 4000, 13000); }

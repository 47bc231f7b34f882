#include "c05_red.hpp"
PROP(vectors_f, 10000, 150000) { vec<float, V_all>(g, 1, 100); }
PROP(matrices_f, 8000, 120000) { mat<float, M_all>(g, 12); }
PROP(long_vectors_f, 240, 4000) { vec<float, V_dense + V_subset + V_col + V_other>(g, 4000, 13000); }

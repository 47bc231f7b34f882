#include "c21_sel.hpp"
PROP(first_float, 600, 12000) { first_<float, V_basic | V_row, V_dense | V_col>(g); }
PROP(first_int, 400, 8000) { first_<int, V_dense | V_subset, V_basic>(g); }
PROP(indexbool_vector, 1500, 30000) { indexbool_1<V_dense | V_subset | V_col | V_row>(g); }
PROP(indexbool_matrix, 1500, 30000) { indexbool_2<M_row | M_col | M_subset | M_transpose>(g); }
PROP(ramp_float, 500, 10000) { ramp_<float, V_all>(g); }
PROP(ramp_int, 400, 8000) { ramp_<int, V_basic>(g); }
PROP(ramp_cfloat, 400, 8000) { ramp_<cf, V_basic>(g); }

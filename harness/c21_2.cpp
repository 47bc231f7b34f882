#include "c21_sel.hpp"
PROP(gather_vector, 500, 10000) { gather_<float, 1, V_all>(g); }
PROP(gather_matrix, 500, 10000) { gather_<float, 2, M_basic | M_transpose>(g); }
PROP(gather_tensor, 500, 10000) { gather_<cf, 3, T_all>(g); }
PROP(scatter_vector, 500, 10000) { scatter_<float, 1, V_basic | V_diag, V_dense | V_col>(g); }
PROP(scatter_matrix, 500, 10000) { scatter_<cf, 2, M_basic | M_subtrans, V_dense | V_subset>(g); }
PROP(scatter_tensor, 500, 10000) { scatter_<int, 3, T_all, V_dense>(g); }
PROP(swap_vector, 800, 15000) { swap_<float, 1, V_basic | V_row | V_diag, V_basic | V_col>(g); }

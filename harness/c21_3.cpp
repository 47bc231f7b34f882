#include "c21_sel.hpp"
PROP(swap_matrix, 1500, 30000) { swap_<float, 2, M_basic | M_transpose, M_basic | M_aligned>(g); }
PROP(swap_cmatrix, 1000, 20000) { swap_<cf, 2, M_row | M_other | M_slice, M_col | M_other>(g); }
PROP(swap_tensor, 1000, 20000) { swap_<float, 3, T_012 | T_210 | T_subset, T_012 | T_102 | T_other>(g); }
PROP(clip_vector, 800, 15000) { if (g.flip()) clip_<float, float, 1, V_all>(g); else clip_<int, int, 1, V_basic>(g); }
PROP(clip_matrix, 800, 15000) { if (g.flip()) clip_<double, int, 2, M_basic>(g); else clip_<float, float, 2, M_row | M_transpose>(g); }
PROP(clip_tensor, 500, 10000) { clip_<short, short, 3, T_012 | T_210 | T_subset>(g); }
PROP(clip_types_vector, 800, 15000) { switch (g.draw(4)) { case 0: clip_types<short, float, double, 1, V_basic>(g); break; case 1: clip_types<float, float, int, 1, V_basic>(g); break; case 2: clip_types<int, double, int, 1, V_basic>(g); break; default: clip_types<double, int, float, 1, V_basic>(g); } }
PROP(clip_types_matrix, 500, 10000) { if (g.flip()) clip_types<int, float, short, 2, M_basic>(g); else clip_types<float, double, float, 2, M_basic>(g); }

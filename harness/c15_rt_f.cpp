#include "c15_dda.hpp"
PROP(rt_f1, 1500, 30000) { runtime<float, 1, V_all>(g); }
PROP(rt_f2, 1500, 30000) { runtime<float, 2, M_row | M_col | M_subset | M_subtrans | M_other | M_aligned>(g); }
PROP(rt_f3, 1500, 30000) { runtime<float, 3, T_all>(g); }

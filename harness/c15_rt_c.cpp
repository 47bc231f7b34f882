#include "c15_dda.hpp"
PROP(rt_c1, 1500, 30000) { runtime<cf, 1, V_all>(g); }
PROP(rt_c2, 1500, 30000) { runtime<cf, 2, M_row | M_col | M_subset | M_subtrans | M_other | M_aligned>(g); }
PROP(rt_c3, 1500, 30000) { runtime<cf, 3, T_all>(g); }

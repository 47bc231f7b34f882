#include "c02_assign.hpp"
PROP(matrices_int_to_double, 10000, 150000) { matrices<double, int, M_basic, M_basic>(g); }
PROP(matrices_short, 10000, 150000) { matrices<short, short, M_basic, M_basic>(g); }
PROP(matrices_bool, 10000, 150000) { matrices<bool, bool, M_row + M_col + M_subset, M_row + M_col + M_subset>(g); }

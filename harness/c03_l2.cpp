#include "c03_lazy.hpp"
PROP(lazy_matrix, 1500, 20000) { lazy2<cf, M_row | M_col | M_subset>(g); }

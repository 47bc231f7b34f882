#include "c15_dda.hpp"
PROP(dda_f2, 3000, 50000) { requests<float, 2, M_row | M_col | M_subset | M_transpose | M_subtrans | M_other | M_slice | M_aligned>(g, Ls_<void, Layout<2, ovxx::any_type, any_packing, array>, Layout<2, row2_type, dense, array>, Layout<2, col2_type, dense, array>, Layout<2, row2_type, unit_stride, array>, Layout<2, row2_type, aligned_32, array>, Layout<2, col2_type, aligned_16, array>, Layout<2, row2_type, any_packing, array>>()); }

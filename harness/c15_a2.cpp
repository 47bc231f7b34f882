#include "c15_dda.hpp"
PROP(dda_wide2, 1500, 20000) { requests<float, 2, M_row | M_col | M_subset | M_aligned>(g, Ls_<Layout<2, row2_type, aligned_64, array>, Layout<2, col2_type, aligned_128, array>, Layout<2, row2_type, aligned_256, array>, Layout<2, row2_type, aligned_512, array>, Layout<2, col2_type, aligned_1024, array>>()); }
PROP(dda_wide1, 800, 10000) { requests<float, 1, V_dense | V_subset | V_other>(g, Ls_<Layout<1, row1_type, aligned_64, array>, Layout<1, row1_type, aligned_256, array>, Layout<1, row1_type, aligned_512, array>, Layout<1, row1_type, aligned_8, array>>()); }

#include "c15_dda.hpp"
PROP(dda_wide3, 1000, 15000) { requests<cf, 3, T_012 | T_102 | T_subset>(g, Ls_<Layout<3, tuple<0, 1, 2>, aligned_64, array>, Layout<3, tuple<1, 0, 2>, aligned_512, array>, Layout<3, tuple<0, 1, 2>, aligned_512, array>, Layout<3, tuple<2, 1, 0>, aligned_16, array>>()); }

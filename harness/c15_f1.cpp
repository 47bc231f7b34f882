#include "c15_dda.hpp"
PROP(dda_f1, 3000, 50000) { requests<float, 1, V_all>(g, Ls_<void, Layout<1, row1_type, any_packing, array>, Layout<1, row1_type, unit_stride, array>, Layout<1, row1_type, dense, array>, Layout<1, row1_type, aligned_32, array>, Layout<1, row1_type, aligned_16, array>, Layout<1, row1_type, aligned_128, array>>()); }

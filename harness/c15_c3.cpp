#include "c15_dda.hpp"
PROP(dda_c3, 3000, 50000) { requests<cf, 3, T_all>(g, Ls_<void, Layout<3, row3_type, dense, array>, Layout<3, col3_type, dense, split_complex>, Layout<3, tuple<1,0,2>, unit_stride, array>, Layout<3, row3_type, aligned_32, split_complex>, Layout<3, tuple<0,2,1>, any_packing, interleaved_complex>, Layout<3, row3_type, unit_stride, array>>()); }

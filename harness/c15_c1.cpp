#include "c15_dda.hpp"
PROP(dda_c1, 3000, 50000) { requests<cf, 1, V_all>(g, Ls_<void, Layout<1, row1_type, any_packing, any_storage_format>, Layout<1, row1_type, unit_stride, array>, Layout<1, row1_type, dense, split_complex>, Layout<1, row1_type, aligned_32, split_complex>, Layout<1, row1_type, aligned_16, interleaved_complex>, Layout<1, row1_type, aligned_128, array>>()); }

#include "c17_ser.hpp"
PROP(matrix_float, 3000, 30000) { if (g.flip()) roundtrip<2, float, M_basic | M_transpose, row2_type, array>(g); else roundtrip<2, float, M_basic, col2_type, array>(g); }
PROP(matrix_int32, 3000, 30000) { if (g.flip()) roundtrip<2, se::int32_type, M_row | M_col, row2_type, array>(g); else roundtrip<2, se::int32_type, M_row | M_col | M_subset, col2_type, array>(g); }
PROP(matrix_cfloat, 3000, 30000) { int k = g.draw(3); if (k == 0) roundtrip<2, cf, M_row | M_col, row2_type, split_complex>(g); else if (k == 1) roundtrip<2, cf, M_row | M_other, col2_type, array>(g); else roundtrip<2, cf, M_row | M_subset, col2_type, interleaved_complex>(g); }
PROP(matrix_as_is, 3000, 30000) { if (g.flip()) as_is<2, float, M_all>(g); else as_is<2, cf, M_basic>(g); }
PROP(user_matrix, 4000, 40000) { int k = g.draw(4); if (k == 0) user<Dense<2, cf>, cf, 2>(g); else if (k == 1) user<Dense<2, se::int64_type, col2_type>, se::int64_type, 2>(g); else if (k == 2) user<Str<2, cf, col2_type, split_complex>, cf, 2>(g); else user<Dense<2, double, col2_type>, double, 2>(g); }

#include "c16_user.hpp"
PROP(user_matrix_double, 6000, 60000) { history<Dense<2, double>, double, 2, true>(g); }
PROP(user_matrix_col_float, 6000, 60000) { history<Dense<2, float, col2_type>, float, 2, true>(g); }
PROP(user_matrix_cfloat, 10000, 100000) { history<Dense<2, cf>, cf, 2, true>(g); }
PROP(user_matrix_col_cfloat, 10000, 100000) { history<Dense<2, cf, col2_type>, cf, 2, true>(g); }
PROP(user_matrix_split, 10000, 100000) { history<Str<2, cd, col2_type, split_complex>, cd, 2, true>(g); }

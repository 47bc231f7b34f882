#include "c16_user.hpp"
PROP(user_mapped_vector, 6000, 60000) { history<Dense<1, cf, row1_type, Map<>>, cf, 1, false>(g); }
PROP(user_mapped_matrix, 6000, 60000) { history<Dense<2, float, col2_type, Map<>>, float, 2, false>(g); }
PROP(user_mapped_cmatrix, 6000, 60000) { history<Dense<2, cd, row2_type, Map<>>, cd, 2, false>(g); }

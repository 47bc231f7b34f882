#include "c16_user.hpp"
PROP(user_vector_float, 6000, 60000) { history<Dense<1, float>, float, 1, true>(g); }
PROP(user_vector_int, 3000, 30000) { history<Dense<1, int>, int, 1, true>(g); }
PROP(user_vector_cfloat, 15000, 150000) { history<Dense<1, cf>, cf, 1, true>(g); }
PROP(user_vector_cdouble, 6000, 60000) { history<Dense<1, cd>, cd, 1, true>(g); }
PROP(user_vector_split, 15000, 150000) { history<Str<1, cf, row1_type, split_complex>, cf, 1, true>(g); }

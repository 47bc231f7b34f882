#include "c16_user.hpp"
PROP(user_tensor_float, 6000, 60000) { history<Dense<3, float, tuple<2, 0, 1>>, float, 3, true>(g); }
PROP(user_tensor_cfloat, 8000, 80000) { history<Dense<3, cf, tuple<0, 1, 2>>, cf, 3, true>(g); }
PROP(user_tensor_cfloat_120, 8000, 80000) { history<Dense<3, cf, tuple<1, 2, 0>>, cf, 3, true>(g); }
PROP(user_tensor_split, 8000, 80000) { history<Str<3, cf, tuple<2, 1, 0>, split_complex>, cf, 3, true>(g); }

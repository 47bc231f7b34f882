#include "c17_ser.hpp"
PROP(tensor_double, 3000, 30000) { int k = g.draw(3); if (k == 0) roundtrip<3, double, T_012 | T_subset, tuple<0, 1, 2>, array>(g); else if (k == 1) roundtrip<3, double, T_012 | T_210, tuple<2, 0, 1>, array>(g); else roundtrip<3, double, T_012 | T_102, tuple<1, 2, 0>, array>(g); }
PROP(tensor_cfloat, 3000, 30000) { if (g.flip()) roundtrip<3, cf, T_012 | T_other, tuple<0, 2, 1>, split_complex>(g); else roundtrip<3, cf, T_012 | T_subset, tuple<2, 1, 0>, array>(g); }
PROP(tensor_as_is, 3000, 30000) { if (g.flip()) as_is<3, float, T_all>(g); else as_is<3, cf, T_012 | T_102 | T_perm>(g); }
PROP(user_tensor, 4000, 40000) { int k = g.draw(3); if (k == 0) user<Dense<3, cf, tuple<1, 0, 2>>, cf, 3>(g); else if (k == 1) user<Dense<3, se::uint8_type, tuple<2, 1, 0>>, se::uint8_type, 3>(g); else user<Str<3, cf, tuple<1, 2, 0>, split_complex>, cf, 3>(g); }

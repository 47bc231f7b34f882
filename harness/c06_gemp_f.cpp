#include "c06_mv.hpp"
PROP(gemp_float, 3000, 30000) { gemps<float, float, float, float>(g); }
PROP(gemp_int, 2000, 20000) { gemps<int, int, int, int>(g); }
PROP(gems_float, 2000, 20000) { gemss<float, float, float>(g); }
PROP(gems_cplx, 2000, 20000) { gemss<cf, cf, cf>(g); }

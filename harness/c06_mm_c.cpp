#include "c06_mv.hpp"
PROP(mm_cplx, 3000, 30000) { matmat<cf, cf, 0, 6>(g); }
PROP(mmh_cplx, 3000, 30000) { matmat<cf, cf, 2, 4>(g); }

#include "c06_mv.hpp"
PROP(mmt_cplx, 3000, 30000) { matmat<cf, cf, 1, 4>(g); }
PROP(mmj_cplx, 3000, 30000) { matmat<cf, cf, 3, 4>(g); }
PROP(mm_zplx, 3000, 30000) { matmat<cd, cd, 0, 4>(g); }

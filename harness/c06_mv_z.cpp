#include "c06_mv.hpp"
PROP(mv_zplx, 3000, 30000) { matvec<cd, cd, 4, 4>(g); }
PROP(vm_zplx, 3000, 30000) { vecmat<cd, cd, 4, 4>(g); }
PROP(dot_zplx, 2000, 20000) { dots<cd, cd>(g); }
PROP(outer_zplx, 2000, 20000) { outers<cd, cd, cd>(g); }
PROP(dot_mixed, 2000, 20000) { dots<float, cf>(g); }
PROP(dot_int, 2000, 20000) { dots<int, int>(g); }
PROP(vmmul_cplx, 3000, 30000) { vmmuls<cf, cf>(g); }
PROP(vmmul_mixed, 3000, 30000) { vmmuls<float, cf>(g); }

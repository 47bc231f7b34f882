#include "c06_mv.hpp"
PROP(mv_cplx, 3000, 30000) { matvec<cf, cf, 6, 4>(g); }
PROP(vm_cplx, 3000, 30000) { vecmat<cf, cf, 6, 4>(g); }
PROP(dot_cplx, 3000, 30000) { dots<cf, cf>(g); }
PROP(outer_cplx, 3000, 30000) { outers<cf, cf, cf>(g); }
PROP(kron_cplx, 2000, 20000) { krons<cf, cf, cf>(g); }

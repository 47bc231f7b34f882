#include "c06_mv.hpp"
PROP(mv_float, 3000, 30000) { matvec<float, float, 6, 4>(g); }
PROP(vm_float, 3000, 30000) { vecmat<float, float, 6, 4>(g); }
PROP(dot_float, 3000, 30000) { dots<float, float>(g); }
PROP(outer_float, 3000, 30000) { outers<float, float, float>(g); }
PROP(kron_float, 2000, 20000) { krons<float, float, float>(g); }
PROP(vmmul_float, 3000, 30000) { vmmuls<float, float>(g); }

#include "c06_mv.hpp"
PROP(mv_double, 3000, 30000) { matvec<double, double, 4, 4>(g); }
PROP(vm_double, 3000, 30000) { vecmat<double, double, 4, 4>(g); }
PROP(mv_int, 2000, 20000) { matvec<int, int, 4, 4>(g); }
PROP(vm_mixed, 2000, 20000) { vecmat<float, cf, 4, 4>(g); }
PROP(mv_mixed, 2000, 20000) { matvec<cf, float, 4, 4>(g); }
PROP(dot_double, 2000, 20000) { dots<double, double>(g); }
PROP(outer_double, 2000, 20000) { outers<double, double, double>(g); }

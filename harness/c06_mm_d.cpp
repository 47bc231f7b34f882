#include "c06_mv.hpp"
PROP(mm_double, 3000, 30000) { matmat<double, double, 0, 4>(g); }
PROP(mm_int, 3000, 30000) { matmat<int, int, 0, 4>(g); }
PROP(mm_mixed, 3000, 30000) { matmat<float, cf, 0, 4>(g); }

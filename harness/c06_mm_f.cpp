#include "c06_mv.hpp"
PROP(mm_float, 3000, 30000) { matmat<float, float, 0, 6>(g); }
PROP(mmt_float, 3000, 30000) { matmat<float, float, 1, 6>(g); }

#include "c02_assign.hpp"
PROP(matrices_float, 20000, 300000) { matrices<float, float, M_all, M_all>(g); }

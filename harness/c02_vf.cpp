#include "c02_assign.hpp"
PROP(vectors_float, 20000, 300000) { vectors<float, float, V_all, V_all>(g); }

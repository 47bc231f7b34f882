#include "c02_assign.hpp"
PROP(tensors_float, 15000, 225000) { tensors<float, float, T_all, T_all>(g); }

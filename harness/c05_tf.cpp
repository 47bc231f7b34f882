#include "c05_red.hpp"
PROP(tensors_f, 8000, 120000) { ten<float, T_all>(g, 6); }

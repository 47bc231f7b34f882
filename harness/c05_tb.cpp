#include "c05_red.hpp"
PROP(tensors_b, 8000, 120000) { ten<bool, T_all>(g, 6); }

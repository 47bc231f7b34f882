#include "c05_red.hpp"
PROP(tensors_i, 8000, 120000) { ten<int, T_all>(g, 6); }

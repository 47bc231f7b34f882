#include "c05_red.hpp"
PROP(tensors_d, 8000, 120000) { ten<double, T_012+T_subset>(g, 6); }

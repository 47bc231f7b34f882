#include "c01_walk.hpp"
PROP(tensor_int_201, 36000, 1200000) { c01::ten<2, Dense<3, int, tuple<2, 0, 1>>>(g); }

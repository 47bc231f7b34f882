#include "c01_walk.hpp"
PROP(tensor_float_012, 60000, 2000000) { c01::ten<2, Dense<3, float, tuple<0, 1, 2>>>(g); }

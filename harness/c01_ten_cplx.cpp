
#include "c01_walk.hpp"
PROP(tensor_complex_120, 48000, 1600000) { c01::ten<1, Dense<3, std::complex<float>, tuple<1, 2, 0>>>(g); }

#include "c05_red.hpp"
PROP(tensors_c, 8000, 120000) { ten<std::complex<float>, T_all>(g, 6); }

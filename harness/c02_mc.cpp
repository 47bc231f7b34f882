#include "c02_assign.hpp"
PROP(matrices_complex, 20000, 300000) { matrices<std::complex<float>, std::complex<float>, M_all, M_all>(g); }

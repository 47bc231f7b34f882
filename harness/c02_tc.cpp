#include "c02_assign.hpp"
PROP(tensors_complex, 10000, 150000) { tensors<std::complex<double>, std::complex<double>, T_012 + T_210 + T_subset + T_other, T_all>(g); }

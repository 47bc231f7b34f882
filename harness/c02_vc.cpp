#include "c02_assign.hpp"
PROP(vectors_complex, 20000, 300000) { vectors<std::complex<float>, std::complex<float>, V_all, V_all>(g); }

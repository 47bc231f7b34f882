#include "c02_assign.hpp"
PROP(vectors_int_to_float, 10000, 150000) { vectors<float, int, V_basic, V_basic>(g); }
PROP(vectors_double_to_float, 10000, 150000) { vectors<float, double, V_basic, V_basic>(g); }
PROP(vectors_float_to_complex, 10000, 150000) { vectors<std::complex<float>, float, V_basic, V_basic>(g); }

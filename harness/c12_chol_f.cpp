#include "c12_solve.hpp"
PROP(chol_f, 900, 12000) { chol<float, by_value>(g); }

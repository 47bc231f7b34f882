#include "c12_solve.hpp"
PROP(chol_d, 900, 12000) { chol<double, by_reference>(g); }

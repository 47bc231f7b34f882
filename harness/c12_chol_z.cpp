#include "c12_solve.hpp"
PROP(chol_z, 900, 12000) { chol<cd, by_reference>(g); }

#include "c12_solve.hpp"
PROP(chol_c, 900, 12000) { chol<cf, by_value>(g); }

#include "c12_solve.hpp"
PROP(lu_z, 900, 12000) { lu<cd, by_value>(g); }

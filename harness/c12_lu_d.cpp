#include "c12_solve.hpp"
PROP(lu_d, 900, 12000) { lu<double, by_value>(g); }

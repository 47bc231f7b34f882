#include "c12_solve.hpp"
PROP(lu_c, 900, 12000) { lu<cf, by_reference>(g); }

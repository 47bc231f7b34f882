#include "c12_solve.hpp"
PROP(lu_f, 900, 12000) { lu<float, by_reference>(g); }

#include "c14_sol.hpp"
PROP(toepsol_d, 900, 12000) { toep<double>(g); }

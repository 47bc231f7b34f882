#include "c14_sol.hpp"
PROP(toepsol_c, 900, 12000) { toep<cf>(g); }

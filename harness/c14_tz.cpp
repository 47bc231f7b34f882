#include "c14_sol.hpp"
PROP(toepsol_z, 900, 12000) { toep<cd>(g); }

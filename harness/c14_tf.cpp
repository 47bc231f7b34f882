#include "c14_sol.hpp"
PROP(toepsol_f, 900, 12000) { toep<float>(g); }

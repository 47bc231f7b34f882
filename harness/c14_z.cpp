#include "c14_sol.hpp"
PROP(covsol_z, 700, 9000) { cov<cd>(g); }
PROP(llsqsol_z, 700, 9000) { lsq<cd>(g); }

#include "c14_sol.hpp"
PROP(covsol_c, 700, 9000) { cov<cf>(g); }
PROP(llsqsol_c, 700, 9000) { lsq<cf>(g); }

#include "c14_sol.hpp"
PROP(covsol_d, 700, 9000) { cov<double>(g); }
PROP(llsqsol_d, 700, 9000) { lsq<double>(g); }

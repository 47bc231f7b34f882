#include "c14_sol.hpp"
PROP(covsol_f, 700, 9000) { cov<float>(g); }
PROP(llsqsol_f, 700, 9000) { lsq<float>(g); }

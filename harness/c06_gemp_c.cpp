#include "c06_mv.hpp"
PROP(gemp_cplx, 3000, 30000) { gemps<cf, cf, cf, cf>(g); }

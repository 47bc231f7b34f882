#include "c06_mv.hpp"
PROP(gemp_double, 3000, 30000) { gemps<double, double, double, double>(g); }
PROP(fixed3_float, 3000, 30000) { fixed<float, float, 3>(g); }
PROP(fixed4_cplx, 3000, 30000) { fixed<cf, cf, 4>(g); }

#include "c06_mv.hpp"
PROP(cumsum_float, 3000, 30000) { cumsums<float, float>(g); }
PROP(cumsum_mixed, 3000, 30000) { cumsums<int, double>(g); }
PROP(cumsum_cplx, 3000, 30000) { cumsums<cf, cf>(g); }
PROP(trans_float, 2000, 20000) { transposes<float>(g); }
PROP(trans_cplx, 2000, 20000) { transposes<cf>(g); }
PROP(trans_int, 2000, 20000) { transposes<int>(g); }
PROP(modulate_float, 2000, 20000) { modulates<float, float>(g); }
PROP(modulate_cplx, 2000, 20000) { modulates<cf, float>(g); }
PROP(modulate_double, 2000, 20000) { modulates<double, double>(g); }
PROP(fixed3_cplx, 2000, 20000) { fixed<cf, cf, 3>(g); }
PROP(fixed4_float, 2000, 20000) { fixed<float, float, 4>(g); }
PROP(kron_mixed, 2000, 20000) { krons<float, cf, cf>(g); }
PROP(kron_int, 2000, 20000) { krons<int, float, float>(g); }

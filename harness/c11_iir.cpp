#include "c11_filt.hpp"
PROP(iir_f, 800, 12000) { iir<float, state_save>(g); }
PROP(iir_d, 800, 12000) { iir<double, state_save>(g); }
PROP(iir_d_nosave, 400, 6000) { iir<double, state_no_save>(g); }
PROP(iir_c, 800, 12000) { iir<cf, state_save>(g); }
PROP(iir_c_nosave, 400, 6000) { iir<cf, state_no_save>(g); }
PROP(iir_z, 800, 12000) { iir<cd, state_save>(g); }

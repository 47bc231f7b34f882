#include "c11_filt.hpp"
PROP(fir_z_non, 800, 12000) { fir<cd, nonsym, state_save>(g); }
PROP(fir_z_odd, 800, 12000) { fir<cd, sym_even_len_odd, state_save>(g); }
PROP(fir_z_even, 800, 12000) { fir<cd, sym_even_len_even, state_save>(g); }
PROP(fir_z_nosave, 400, 6000) { fir<cd, nonsym, state_no_save>(g); }

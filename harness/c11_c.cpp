#include "c11_filt.hpp"
PROP(fir_c_non, 800, 12000) { fir<cf, nonsym, state_save>(g); }
PROP(fir_c_odd, 800, 12000) { fir<cf, sym_even_len_odd, state_save>(g); }
PROP(fir_c_even, 800, 12000) { fir<cf, sym_even_len_even, state_save>(g); }
PROP(fir_c_nosave, 400, 6000) { fir<cf, sym_even_len_even, state_no_save>(g); }

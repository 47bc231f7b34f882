#include "c11_filt.hpp"
PROP(fir_d_non, 800, 12000) { fir<double, nonsym, state_save>(g); }
PROP(fir_d_odd, 800, 12000) { fir<double, sym_even_len_odd, state_save>(g); }
PROP(fir_d_even, 800, 12000) { fir<double, sym_even_len_even, state_save>(g); }
PROP(fir_d_nosave, 400, 6000) { fir<double, sym_even_len_odd, state_no_save>(g); }

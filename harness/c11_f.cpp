#include "c11_filt.hpp"
PROP(fir_f_non, 800, 12000) { fir<float, nonsym, state_save>(g); }
PROP(fir_f_odd, 800, 12000) { fir<float, sym_even_len_odd, state_save>(g); }
PROP(fir_f_even, 800, 12000) { fir<float, sym_even_len_even, state_save>(g); }
PROP(fir_f_nosave, 400, 6000) { fir<float, nonsym, state_no_save>(g); }

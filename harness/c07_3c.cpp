#include "c07_fft.hpp"
PROP(c3_fwd_ref, 800, 8000) { fft_law<3, cf, cf, fft_fwd, by_reference, 2>(g); }
PROP(c3_inv_val, 500, 8000) { fft_law<3, cf, cf, fft_inv, by_value>(g); }

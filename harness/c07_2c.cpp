#include "c07_fft.hpp"
PROP(c2_fwd_ref, 1500, 10000) { fft_law<2, cf, cf, fft_fwd, by_reference>(g); }
PROP(c2_inv_val, 300, 3000) { fft_law<2, cf, cf, fft_inv, by_value, 0>(g); }
PROP(z2_inv_ref, 800, 8000) { fft_law<2, cd, cd, fft_inv, by_reference, 12>(g); }

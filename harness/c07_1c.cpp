#include "c07_fft.hpp"
PROP(c1_fwd_ref, 1500, 10000) { fft_law<1, cf, cf, fft_fwd, by_reference>(g); }
PROP(c1_inv_ref, 1500, 10000) { fft_law<1, cf, cf, fft_inv, by_reference, 12>(g); }
PROP(c1_fwd_val, 1500, 10000) { fft_law<1, cf, cf, fft_fwd, by_value>(g); }
PROP(z1_inv_ref, 100, 1500) { fft_law<1, cd, cd, fft_inv, by_reference, 0>(g); }
PROP(z1_inv_val, 1000, 8000) { fft_law<1, cd, cd, fft_inv, by_value, 1>(g); }

#include "c07_fft.hpp"
PROP(r2_0_ref, 1000, 10000) { fft_law<2, float, cf, 0, by_reference>(g); }
PROP(r2_1_ref, 1000, 10000) { fft_law<2, float, cf, 1, by_reference, 2>(g); }
PROP(r2_0_val, 1000, 10000) { fft_law<2, float, cf, 0, by_value>(g); }

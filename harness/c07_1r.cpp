#include "c07_fft.hpp"
PROP(r1_ref, 1500, 10000) { fft_law<1, float, cf, 0, by_reference>(g); }
PROP(r1_val, 1000, 10000) { fft_law<1, float, cf, 0, by_value, 12>(g); }
PROP(cr1_ref, 1500, 10000) { fft_law<1, cf, float, 0, by_reference, 2>(g); }
PROP(cr1_val, 1000, 10000) { fft_law<1, cf, float, 0, by_value, 12>(g); }
PROP(d1_ref, 1000, 8000) { fft_law<1, double, cd, 0, by_reference>(g); }
PROP(zd1_val, 1000, 8000) { fft_law<1, cd, double, 0, by_value>(g); }

#include "c07_fft.hpp"
PROP(r3_0_ref, 500, 8000) { fft_law<3, float, cf, 0, by_reference>(g); }
PROP(r3_1_ref, 500, 8000) { fft_law<3, float, cf, 1, by_reference>(g); }
PROP(r3_2_ref, 500, 8000) { fft_law<3, float, cf, 2, by_reference>(g); }

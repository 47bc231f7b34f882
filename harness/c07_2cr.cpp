#include "c07_fft.hpp"
PROP(cr2_0_ref, 1000, 10000) { fft_law<2, cf, float, 0, by_reference>(g); }
PROP(cr2_1_ref, 1000, 10000) { fft_law<2, cf, float, 1, by_reference, 2>(g); }
PROP(zd2_1_val, 1000, 10000) { fft_law<2, cd, double, 1, by_value>(g); }

#include "c09_conv.hpp"
PROP(corr1_f_full, 1200, 10000) { corr1<float, support_full>(g); }
PROP(corr1_f_same, 1200, 10000) { corr1<float, support_same>(g); }
PROP(corr1_f_min, 1200, 10000) { corr1<float, support_min>(g); }

#include "c09_conv.hpp"
PROP(corr2_f_full, 1200, 10000) { corr2<float, support_full>(g); }
PROP(corr2_f_same, 1200, 10000) { corr2<float, support_same>(g); }
PROP(corr2_f_min, 1200, 10000) { corr2<float, support_min>(g); }

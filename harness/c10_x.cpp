#include "c09_conv.hpp"
PROP(corr1_d_same, 1000, 8000) { corr1<double, support_same>(g); }
PROP(corr1_z_full, 1000, 8000) { corr1<cd, support_full>(g); }
PROP(corr2_d_min, 1000, 8000) { corr2<double, support_min>(g); }

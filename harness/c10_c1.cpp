#include "c09_conv.hpp"
PROP(corr1_c_full, 1200, 10000) { corr1<cf, support_full>(g); }
PROP(corr1_c_same, 1200, 10000) { corr1<cf, support_same>(g); }
PROP(corr1_c_min, 1200, 10000) { corr1<cf, support_min>(g); }

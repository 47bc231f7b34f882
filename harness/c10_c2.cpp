#include "c09_conv.hpp"
PROP(corr2_c_full, 1200, 10000) { corr2<cf, support_full>(g); }
PROP(corr2_c_same, 1200, 10000) { corr2<cf, support_same>(g); }
PROP(corr2_c_min, 1200, 10000) { corr2<cf, support_min>(g); }

#include "c09_conv.hpp"
PROP(conv1_d_same, 700, 6000) { conv1<double, nonsym, support_same>(g); }
PROP(conv1_i_full, 700, 6000) { conv1<int, nonsym, support_full>(g); }
PROP(conv2_z_min, 700, 6000) { conv2<cd, nonsym, support_min>(g); }

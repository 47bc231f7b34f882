#include "c13_qrsvd.hpp"
PROP(svd_f, 600, 9000) { sv<float, by_value>(g); }

#include "c13_qrsvd.hpp"
PROP(svd_d, 600, 9000) { sv<double, by_reference>(g); }

#include "c13_qrsvd.hpp"
PROP(svd_c, 600, 9000) { sv<cf, by_value>(g); }

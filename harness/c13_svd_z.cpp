#include "c13_qrsvd.hpp"
PROP(svd_z, 600, 9000) { sv<cd, by_reference>(g); }

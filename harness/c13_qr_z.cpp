#include "c13_qrsvd.hpp"
PROP(qr_z, 600, 9000) { qr<cd, by_value>(g); }

#include "c13_qrsvd.hpp"
PROP(qr_d, 600, 9000) { qr<double, by_value>(g); }

#include "c13_qrsvd.hpp"
PROP(qr_c, 600, 9000) { qr<cf, by_reference>(g); }

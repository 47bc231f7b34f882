#include "c13_qrsvd.hpp"
PROP(qr_f, 600, 9000) { qr<float, by_reference>(g); }

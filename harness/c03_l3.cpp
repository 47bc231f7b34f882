#include "c03_lazy.hpp"
PROP(lazy_tensor, 1200, 20000) { lazy3<cf, T_012 | T_210 | T_102 | T_perm>(g); }

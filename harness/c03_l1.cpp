#include "c03_lazy.hpp"
PROP(lazy_vector, 1500, 20000) { lazy1<cf, V_dense | V_subset | V_other>(g); }

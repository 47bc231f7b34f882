// the build's configuration, but without BLAS and LAPACK
#include_next <ovxx/detail/config.hpp>
#undef OVXX_HAVE_BLAS
#undef OVXX_HAVE_LAPACK
#undef OVXX_USE_CBLAS

// the build's configuration, but without MPI
#include_next <ovxx/detail/config.hpp>
#undef OVXX_HAVE_MPI

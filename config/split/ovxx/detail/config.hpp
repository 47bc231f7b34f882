// the build's configuration, but with split complex storage as the default
#include_next <ovxx/detail/config.hpp>
#undef OVXX_DEFAULT_COMPLEX_STORAGE_SPLIT
#define OVXX_DEFAULT_COMPLEX_STORAGE_SPLIT 1

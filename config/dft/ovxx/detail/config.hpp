// the build's configuration, but the library's own transforms in place of FFTW
#include_next <ovxx/detail/config.hpp>
#undef OVXX_FFTW
#undef OVXX_FFTW_HAVE_FLOAT
#undef OVXX_FFTW_HAVE_DOUBLE
#undef OVXX_DFT_FFT
#define OVXX_DFT_FFT 1

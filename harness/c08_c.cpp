#include "c07_fft.hpp"
PROP(m_c_row_fwd_ref, 1000, 8000) { fftm_law<cf, cf, row, fft_fwd, by_reference>(g); }
PROP(m_c_col_inv_ref, 600, 3000) { fftm_law<cf, cf, col, fft_inv, by_reference, 0>(g); }

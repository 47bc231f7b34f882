#include "c07_fft.hpp"
PROP(m_c_row_inv_val, 1000, 8000) { fftm_law<cf, cf, row, fft_inv, by_value, 12>(g); }
PROP(m_z_col_fwd_ref, 800, 8000) { fftm_law<cd, cd, col, fft_fwd, by_reference, 2>(g); }
PROP(m_c_col_fwd_val, 800, 8000) { fftm_law<cf, cf, col, fft_fwd, by_value>(g); }

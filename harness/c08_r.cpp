#include "c07_fft.hpp"
PROP(m_r_row_ref, 1000, 8000) { fftm_law<float, cf, row, fft_fwd, by_reference>(g); }
PROP(m_r_col_ref, 1000, 8000) { fftm_law<float, cf, col, fft_fwd, by_reference>(g); }
PROP(m_d_row_val, 800, 8000) { fftm_law<double, cd, row, fft_fwd, by_value>(g); }

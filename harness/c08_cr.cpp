#include "c07_fft.hpp"
PROP(m_cr_row_ref, 1000, 8000) { fftm_law<cf, float, row, fft_inv, by_reference, 2>(g); }
PROP(m_cr_col_ref, 1000, 8000) { fftm_law<cf, float, col, fft_inv, by_reference>(g); }
PROP(m_cr_col_val, 800, 8000) { fftm_law<cf, float, col, fft_inv, by_value>(g); }
// a transform assigned to its own input
template <class T> void selfm(pbt::Gen &g)
{
  size_t n[3] = {1 + g.draw(12), 1 + g.draw(12), 1};
  Fftm<T, T, col, fft_fwd, by_value, 1> f(Domain<2>(n[0], n[1]), 1);
  Case<T, T> c(g, n, 2, 0, 0, -1, 1);
  constexpr int M = M_row | M_col | M_subset | M_other;
  if (n[0] * n[1] > 1) g.nontrivial();
  with_<2>::template go<T, M>(g, n, [&](auto &o) { o.set(c.in); g.note() << o.kind; o.view = f(o.view); o.holds(g, c.out, "v = fftm(v)", Close{c.tol}); });
}
PROP(m_self, 500, 5000) { selfm<cf>(g); }

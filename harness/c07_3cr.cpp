#include "c07_fft.hpp"
PROP(cr3_0_ref, 500, 8000) { fft_law<3, cf, float, 0, by_reference, 2>(g); }
PROP(cr3_1_ref, 500, 8000) { fft_law<3, cf, float, 1, by_reference>(g); }
PROP(cr3_2_ref, 500, 8000) { fft_law<3, cf, float, 2, by_reference>(g); }
// a transform assigned to its own input
template <class T, int D> void self(pbt::Gen &g)
{
  size_t n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = 1 + g.draw(12);
  typename fft_type<D, T, T, fft_fwd, by_value, 1>::type f(dom_(n, std::integral_constant<int, D>()), 1);
  Case<T, T> c(g, n, D, -1, 0, -1, 1);
  constexpr int M = D == 1 ? V_dense | V_subset | V_other | V_col : M_row | M_col | M_subset | M_other;
  if (n[0] * n[1] > 1) g.nontrivial();
  with_<D>::template go<T, M>(g, n, [&](auto &o) { o.set(c.in); g.note() << o.kind; o.view = f(o.view); o.holds(g, c.out, "v = fft(v)", Close{c.tol}); });
}
PROP(self1, 500, 5000) { self<cf, 1>(g); }
PROP(self2, 500, 5000) { self<cf, 2>(g); }

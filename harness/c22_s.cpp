// C22 freqswap
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include "views.hpp"
using namespace pv; typedef std::complex<float> cf;
template <class T> Arr<T> swapped(Arr<T> const &a, bool rows = true, bool cols = true) { Arr<T> r(a.n[0], a.n[1]); for (size_t i = 0; i < a.n[0]; ++i) for (size_t j = 0; j < a.n[1]; ++j) r.at(i, j) = a.at(rows ? (i + (a.n[0] + 1) / 2) % a.n[0] : i, cols ? (j + (a.n[1] + 1) / 2) % a.n[1] : j); return r; }
inline size_t slen(pbt::Gen &g) { return g.large(1 + g.draw(g.flip(1, 8) ? 70 : 10), 300, 150); }
template <class S, class T> Arr<T> cast(Arr<S> const &a) { Arr<T> r(a.n[0], a.n[1]); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = T(a.v[i]); return r; }
template <class V, class O> void note(pbt::Gen &g, V &v, O &o) { g.note() << v.kind << " to " << o.kind; }
template <class S, class T, int D, int M1, int M2> void copying(pbt::Gen &g)
{
  size_t n = slen(g), m = D == 1 ? 1 : slen(g); g.note() << n << 'x' << m << ' '; Arr<S> a = data<S>(g.dataseed(), pbt::signed_int, n, m); Arr<T> old = data<T>(g.dataseed(), pbt::signed_int, n, m); unsigned how = g.draw(4);
  auto go = [&](auto &v, auto &o) { v.set(a); o.set(old); note(g, v, o); Arr<T> want = cast<S, T>(swapped(a));
    switch (how) { case 0: case 1: o.view = vsip::freqswap(v.view); break;
      case 2: { o.view = vsip::freqswap(v.view) * S(2) + v.view; for (size_t i = 0; i < want.v.size(); ++i) want.v[i] = want.v[i] * T(2) + T(a.v[i]); g.label("in an expression"); break; }
      case 3: { o.view = vsip::freqswap(v.view + v.view * S(2)); for (auto &x : want.v) x *= T(3); g.label("of an expression"); break; } }
    o.holds(g, want, "the result") && v.holds(g, a, "the argument"); if (n * m > 2) g.nontrivial(); g.label(n % 2 ? "odd" : "even"); };
  if constexpr (D == 1) with_vector<S, M1>(g, n, [&](auto &v) { with_vector<T, M2>(g, n, [&](auto &o) { go(v, o); }); });
  else with_matrix<S, M1>(g, n, m, [&](auto &v) { with_matrix<T, M2>(g, n, m, [&](auto &o) { go(v, o); }); });
}
template <class T, int D, int M> void inplace(pbt::Gen &g)
{
  size_t n = slen(g), m = D == 1 ? 1 : slen(g); g.note() << n << 'x' << m << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n, m); bool twice = g.flip();
  auto go = [&](auto &v) { v.set(a); g.note() << v.kind << " in place" << (twice ? ", twice" : ""); v.view = vsip::freqswap(v.view); Arr<T> w = swapped(a); if (twice) { v.view = vsip::freqswap(v.view); w = swapped(w); } v.holds(g, w, "the view swapped in place"); if (n * m > 2) g.nontrivial(); g.label(n % 2 ? "odd" : "even"); };
  if constexpr (D == 1) with_vector<T, M>(g, n, go); else with_matrix<T, M>(g, n, m, go);
}
template <class T, int M1, int M2> void values(pbt::Gen &g)
{
  // used as a block: element access, reduction, freqswap of freqswap, local copies
  size_t n = slen(g), m = slen(g); g.note() << n << 'x' << m << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n, m), b = data<T>(g.dataseed(), pbt::signed_int, n); with_matrix<T, M1>(g, n, m, [&](auto &v) { with_vector<T, M2>(g, n, [&](auto &u) {
    v.set(a); u.set(b); g.note() << v.kind << ", " << u.kind; auto e = vsip::freqswap(v.view); Arr<T> w = swapped(a), w2 = swapped(w), x = swapped(b), x2 = swapped(x); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) REQUIRE(g, eq<T>(e.get(i, j), w.at(i, j)), "element (" << i << ',' << j << ") of freqswap is " << pbt::show(T(e.get(i, j))));
    Matrix<T> r(n, m); r = vsip::freqswap(vsip::freqswap(v.view)); for (size_t i = 0; i < n * m; ++i) REQUIRE(g, eq<T>(r.get(i / m, i % m), w2.v[i]), "freqswap twice: element " << i << " is " << pbt::show(T(r.get(i / m, i % m))));
    auto f = vsip::freqswap(u.view); for (size_t i = 0; i < n; ++i) REQUIRE(g, eq<T>(f.get(i), x.v[i]), "element " << i << " of freqswap is " << pbt::show(T(f.get(i)))); Vector<T> s(n); s = vsip::freqswap(vsip::freqswap(u.view)); for (size_t i = 0; i < n; ++i) REQUIRE(g, eq<T>(s.get(i), x2.v[i]), "freqswap twice: element " << i);
    s = f; for (size_t i = 0; i < n; ++i) REQUIRE(g, eq<T>(s.get(i), x.v[i]), "element " << i << " of a copy of an evaluated freqswap"); T sum = T(); for (T q : a.v) sum += q; REQUIRE(g, eq<T>(sumval(vsip::freqswap(v.view)), sum), "the sum over freqswap"); if (n > 1 && m > 1) g.nontrivial(); }); });
}
template <class T, int M1, int M2> void axis(pbt::Gen &g)
{
  size_t n = slen(g), m = slen(g); bool row = g.flip(); g.note() << n << 'x' << m << (row ? " by row: " : " by column: "); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n, m), old = data<T>(g.dataseed(), pbt::signed_int, n, m);
  with_matrix<T, M1>(g, n, m, [&](auto &v) { with_matrix<T, M2>(g, n, m, [&](auto &o) { v.set(a); o.set(old); note(g, v, o); if (row) ovxx::signal::freqswap<vsip::row>(v.view, o.view); else ovxx::signal::freqswap<vsip::col>(v.view, o.view); o.holds(g, swapped(a, !row, row), "the result") && v.holds(g, a, "the argument"); if (n > 1 && m > 1) g.nontrivial(); }); });
}
PROP(c22_swap_vector, 1500, 40000) { copying<float, float, 1, V_all, V_basic>(g); }
PROP(c22_swap_vector_complex, 1200, 30000) { copying<cf, cf, 1, V_basic, V_all>(g); }
PROP(c22_swap_vector_convert, 800, 20000) { copying<float, double, 1, V_basic, V_basic>(g); }
PROP(c22_swap_matrix, 1500, 40000) { copying<float, float, 2, M_basic | M_transpose, M_basic | M_transpose>(g); }
PROP(c22_swap_matrix_int, 800, 20000) { copying<int, float, 2, M_row | M_col | M_subset, M_row | M_col | M_aligned>(g); }
PROP(c22_swap_matrix_complex, 800, 20000) { copying<cf, cf, 2, M_row | M_transpose | M_other, M_subset | M_col | M_other>(g); }
PROP(c22_inplace_vector, 1500, 40000) { inplace<float, 1, V_all>(g); }
PROP(c22_inplace_vector_complex, 800, 20000) { inplace<cf, 1, V_all>(g); }
PROP(c22_inplace_matrix, 2000, 50000) { inplace<float, 2, M_all>(g); }
PROP(c22_inplace_matrix_complex, 1200, 30000) { inplace<cf, 2, M_all>(g); }
PROP(c22_swap_values, 1000, 25000) { values<int, M_basic, V_basic>(g); }
PROP(c22_swap_axis, 1500, 40000) { axis<float, M_row | M_col | M_subset | M_transpose, M_row | M_col | M_subset>(g); }
// the same elements through a view made anew
template <class T, class O> void anew(pbt::Gen &g)
{
  size_t n = slen(g), m = slen(g), r0 = g.draw(3), c0 = g.draw(3), rs = 1 + g.draw(2), cs = 1 + g.draw(2); unsigned how = g.draw(5); g.note() << n << 'x' << m << " how " << how << ' '; Matrix<T, Dense<2, T, O>> x(r0 + rs * n + 1, c0 + cs * m + 1); Arr<T> all = data<T>(g.dataseed(), pbt::signed_int, x.size(0), x.size(1)); write(x, all);
  Domain<2> d(Domain<1>(r0, rs, n), Domain<1>(c0, cs, m)); Arr<T> a = read(x(d));
  auto const &y = x; // const views as arguments
  switch (how)
  {
    case 0: x(d) = vsip::freqswap(x(d)); a = swapped(a); break;
    case 1: x(d) = vsip::freqswap(y.get(d)); a = swapped(a); break;
    case 2: x.transpose()(Domain<2>(d[1], d[0])) = vsip::freqswap(x.transpose()(Domain<2>(d[1], d[0]))); a = swapped(a); break;
    case 3: { auto z = x(d); auto w = x(d); z = vsip::freqswap(w); a = swapped(a); break; }
    case 4: { Matrix<T, Dense<2, T, O>> z(x); z = vsip::freqswap(x); all = swapped(all); Arr<T> now = read(x); for (size_t i = 0; i < all.v.size(); ++i) REQUIRE(g, eq<T>(now.v[i], all.v[i]), "element " << i << " of a matrix swapped in place is " << pbt::show(T(now.v[i])) << ", not " << pbt::show(all.v[i])); return; }
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) all.at(r0 + i * rs, c0 + j * cs) = a.at(i, j);
  Arr<T> now = read(x); for (size_t i = 0; i < all.v.size(); ++i) REQUIRE(g, eq<T>(now.v[i], all.v[i]), "original element " << i << " after a swap in place is " << pbt::show(T(now.v[i])) << ", not " << pbt::show(all.v[i])); if (n > 1 && m > 1) g.nontrivial();
}
PROP(c22_inplace_anew, 1500, 40000) { if (g.flip()) anew<float, row2_type>(g); else anew<float, col2_type>(g); }
PROP(c22_inplace_anew_complex, 800, 20000) { anew<cf, row2_type>(g); }
PROP(c22_inplace_parts, 1000, 25000)
{
  // real and imaginary parts, and rows of a matrix
  size_t n = slen(g), m = slen(g); g.note() << n << 'x' << m; Arr<cf> a = data<cf>(g.dataseed(), pbt::signed_int, n, m); Matrix<cf> x(n, m); write(x, a); x.real() = vsip::freqswap(x.real()); Arr<float> re(n, m), im(n, m); for (size_t i = 0; i < n * m; ++i) re.v[i] = a.v[i].real(), im.v[i] = a.v[i].imag(); re = swapped(re);
  if (g.flip()) { x.imag() = vsip::freqswap(x.imag()); im = swapped(im); } for (size_t i = 0; i < n * m; ++i) REQUIRE(g, x.get(i / m, i % m) == cf(re.v[i], im.v[i]), "element " << i << " is " << pbt::show(cf(x.get(i / m, i % m)))); size_t r = g.draw(n); Arr<cf> row(m), before = read(x); for (size_t j = 0; j < m; ++j) row.v[j] = before.at(r, j); row = swapped(row); x.row(r) = vsip::freqswap(x.row(r));
  for (size_t j = 0; j < m; ++j) before.at(r, j) = row.v[j]; for (size_t i = 0; i < n * m; ++i) REQUIRE(g, x.get(i / m, i % m) == before.v[i], "element " << i << " after a row was swapped"); if (n > 1 && m > 1) g.nontrivial();
}

#include "c12_solve.hpp"
template <class T> void cov(pbt::Gen &g)
{
  size_t n = g.large(1 + g.draw(g.flip() ? 5 : 14), 70, 100), m = n + g.large(g.draw(12), 100, 100), p = g.large(1 + g.draw(6), 70, 100); double e = eps<T>() * (m + 3); g.note() << m << 'x' << n << ", " << p << " right-hand sides: ";
  Arr<T> av = well<T>(g, m, n), b = values<T>(g, n, p); Mx A = mx(av), AA = mul(tr(A, true), A), X; if (n > 1) g.nontrivial();
  with_matrix<T, MV>(g, m, n, [&](auto &oa) { with_matrix<T, MS | M_transpose>(g, n, p, [&](auto &ob) {
    oa.set(av); ob.set(b); g.note() << oa.kind << ", " << ob.kind << "; ";
    if (g.flip()) { auto x = covsol(oa.view, ob.view); REQUIRE(g, x.size(0) == n && x.size(1) == p, "the result is " << x.size(0) << 'x' << x.size(1)); X = mx(read(x)); g.label("by value"); }
    else with_matrix<T, MS>(g, n, p, [&](auto &ox) { ox.set(Arr<T>(n, p)); auto r = covsol(oa.view, ob.view, ox.view); Arr<T> x = read(ox.view); ox.holds(g, x, "covsol"); X = mx(x); small(g, sub(mx(read(r)), X), 0, "the returned view is the argument"); g.label("by reference"); });
    oa.holds(g, av, "the matrix"); ob.holds(g, b, "the right-hand side"); }); });
  // A^H A X = B; |R^H R - A^H A| is backward stable, the error is relative to |A|^2 |X|
  small(g, sub(mul(AA, X), mx(b)), 300 * e * (norm(A) * norm(A) * norm(X) + norm(mx(b))), "covsol");
}
template <class T> void lsq(pbt::Gen &g)
{
  size_t n = g.large(1 + g.draw(g.flip() ? 5 : 14), 70, 100), m = n + (g.flip(1, 4) ? 0 : g.large(g.draw(12), 100, 100)), p = g.large(1 + g.draw(6), 70, 100); double e = eps<T>() * (m + 3); g.note() << m << 'x' << n << ", " << p << " right-hand sides: ";
  Arr<T> av = well<T>(g, m, n), b = values<T>(g, m, p); Mx A = mx(av), X; if (n > 1) g.nontrivial(); g.label(m > n ? "overdetermined" : "square");
  with_matrix<T, MV>(g, m, n, [&](auto &oa) { with_matrix<T, MS | M_transpose>(g, m, p, [&](auto &ob) {
    oa.set(av); ob.set(b); g.note() << oa.kind << ", " << ob.kind << "; ";
    if (g.flip()) { auto x = llsqsol(oa.view, ob.view); REQUIRE(g, x.size(0) == n && x.size(1) == p, "the result is " << x.size(0) << 'x' << x.size(1)); X = mx(read(x)); g.label("by value"); }
    else with_matrix<T, MS>(g, n, p, [&](auto &ox) { ox.set(Arr<T>(n, p)); auto r = llsqsol(oa.view, ob.view, ox.view); Arr<T> x = read(ox.view); ox.holds(g, x, "llsqsol"); X = mx(x); small(g, sub(mx(read(r)), X), 0, "the returned view is the argument"); g.label("by reference"); });
    oa.holds(g, av, "the matrix"); ob.holds(g, b, "the right-hand side"); }); });
  Mx r = sub(mul(A, X), mx(b)); small(g, mul(tr(A, true), r), 300 * e * norm(A) * (norm(mx(b)) + norm(A) * norm(X)), "llsqsol: the residual is orthogonal to the columns");
}
template <class T> void toep(pbt::Gen &g)
{
  size_t n = g.large(1 + g.draw(g.flip() ? 6 : g.flip(3, 4) ? 20 : 60), 260, 100); g.note() << "order " << n << ": "; if (n > 1) g.nontrivial(); typedef typename is_cplx<T>::real S;
  Arr<T> t = data<T>(g.dataseed(), g.flip() ? pbt::signed_int : pbt::real_unit, n), b = values<T>(g, n, 1), xs, none(n); bool one = n > 1 && g.flip(1, 16);
  double s = 1; for (size_t i = 1; i < n; ++i) s += std::abs(t.v[i]); t.v[0] = T(S(g.pick({1.0, 1.1, 2.5}) * s));
  if (one) { for (auto &x : t.v) x = T(2); g.label("singular"); }
  Mx M(n, n), X; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { cl v(std::real(t.v[i < j ? j - i : i - j]), std::imag(t.v[i < j ? j - i : i - j])); M(i, j) = j >= i ? v : std::conj(v); }
  bool threw = false;
  with_vector<T, V_dense | V_subset | V_other>(g, n, [&](auto &ot) { with_vector<T, V_dense | V_subset>(g, n, [&](auto &ob) { with_vector<T, V_dense | V_subset>(g, n, [&](auto &oy) {
    ot.set(t); ob.set(b); oy.set(none); g.note() << ot.kind << ", " << ob.kind << ", " << oy.kind << "; ";
    try
    {
      if (g.flip()) { auto x = toepsol(ot.view, ob.view, oy.view); REQUIRE(g, x.size() == n, "the result has " << x.size() << " elements"); xs = read(x); g.label("by value"); }
      else with_vector<T, V_dense | V_subset | V_other>(g, n, [&](auto &ox) { ox.set(none); auto r = toepsol(ot.view, ob.view, oy.view, ox.view); xs = read(ox.view); ox.holds(g, xs, "toepsol"); small(g, sub(mx(read(r)), mx(xs)), 0, "the returned view is the argument"); g.label("by reference"); });
    }
    catch (computation_error &) { threw = true; }
    Arr<T> y = read(oy.view); oy.holds(g, y, "the workspace"); ot.holds(g, t, "the first row"); ob.holds(g, b, "the right-hand side"); }); }); });
  if (one) { REQUIRE(g, threw, "a singular system was solved"); return; }
  REQUIRE(g, !threw, "a regular system was not solved");
  X = mx(xs); double nn = n + 2; // Levinson on a diagonally dominant matrix is backward stable
  small(g, sub(mul(M, X), mx(b)), 200 * nn * nn * eps<T>() * (norm(M) * norm(X) + norm(mx(b))), "toepsol");
}

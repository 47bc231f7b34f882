// C05: reductions
#include <vsip/math.hpp>
#include <vsip/complex.hpp>
#include "views.hpp"
using namespace pv;
typedef long double L; typedef std::complex<long double> LC;
inline L lmag(L x) { return x < 0 ? -x : x; }
inline L lmag(LC x) { return std::sqrt(std::norm(x)); }
inline L lsq(L x) { return x * x; }
inline L lsq(LC x) { return std::norm(x); }
template <class T> struct W_ { typedef L type; };
template <class T> struct W_<std::complex<T>> { typedef LC type; };
template <class A, class B> bool near(A a, B b, L scale, L eps) { return lmag(typename W_<A>::type(a) - typename W_<A>::type(b)) <= eps * (scale + 1e-30L) || typename W_<A>::type(a) == typename W_<A>::type(b); }
template <class V, class T> T at(V const &v, Index<1> const &i, T) { return i[0] < v.size(0) ? v.get(i[0]) : T(-777); }
template <class V, class T> T at(V const &v, Index<2> const &i, T) { return i[0] < v.size(0) && i[1] < v.size(1) ? v.get(i[0], i[1]) : T(-777); }
template <class V, class T> T at(V const &v, Index<3> const &i, T) { return i[0] < v.size(0) && i[1] < v.size(1) && i[2] < v.size(2) ? v.get(i[0], i[1], i[2]) : T(-777); }

template <class V, class T> void sums(pbt::Gen &g, V const &v, Arr<T> const &a, bool exact)
{
  typedef typename W_<T>::type W; W s = 0, q = 0; L m = 0, as = 0; L n = a.v.size(), eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon();
  for (auto x : a.v) { s += W(x); q += W(x) * W(x); m += lsq(W(x)); as += lmag(W(x)); }
  L e = (exact ? 1 : n) * eps * 2;
  REQUIRE(g, near(sumval(v), s, exact ? lmag(s) : as, e), "sumval is " << sumval(v) << ", not " << s);
  REQUIRE(g, near(meanval(v), s / n, (exact ? lmag(s) : as) / n, e), "meanval is " << meanval(v) << ", not " << s / n);
  REQUIRE(g, near(sumsqval(v), q, exact ? lmag(q) : m, e), "sumsqval is " << sumsqval(v) << ", not " << q);
  REQUIRE(g, near(meansqval(v), m / n, m / n, e), "meansqval is " << meansqval(v) << ", not " << m / n);
}
template <class V, class T> void mags(pbt::Gen &g, V const &v, Arr<T> const &a)
{
  typedef typename W_<T>::type W; L hi = -1, lo = 1e30L, eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon() * 8; Index<V::dim> i, j;
  for (auto x : a.v) { L m = lmag(W(x)); hi = std::max(hi, m); lo = std::min(lo, m); }
  auto x = maxmgval(v, i); auto y = minmgval(v, j);
  REQUIRE(g, near(x, hi, hi, eps), "maxmgval is " << x << ", not " << hi); REQUIRE(g, near(lmag(W(at(v, i, T()))), hi, hi, eps), "maxmgval's index " << i << " holds " << at(v, i, T()) << ", not magnitude " << hi);
  REQUIRE(g, near(y, lo, lo, eps), "minmgval is " << y << ", not " << lo); REQUIRE(g, near(lmag(W(at(v, j, T()))), lo, lo, eps), "minmgval's index " << j << " holds " << at(v, j, T()) << ", not magnitude " << lo);
}
template <class V, class T> void magsqs(pbt::Gen &g, V const &v, Arr<T> const &a)
{
  L hi = -1, lo = 1e30L, eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon() * 8; Index<V::dim> i, j;
  for (auto x : a.v) { L m = lsq(LC(x)); hi = std::max(hi, m); lo = std::min(lo, m); }
  auto x = maxmgsqval(v, i); auto y = minmgsqval(v, j);
  REQUIRE(g, near(x, hi, hi, eps), "maxmgsqval is " << x << ", not " << hi); REQUIRE(g, near(lsq(LC(at(v, i, T()))), hi, hi, eps), "maxmgsqval's index " << i);
  REQUIRE(g, near(y, lo, lo, eps), "minmgsqval is " << y << ", not " << lo); REQUIRE(g, near(lsq(LC(at(v, j, T()))), lo, lo, eps), "minmgsqval's index " << j);
}
template <class V, class T> void extrema(pbt::Gen &g, V const &v, Arr<T> const &a)
{
  T hi = a.v[0], lo = a.v[0]; Index<V::dim> i, j; for (auto x : a.v) { hi = std::max<T>(hi, x); lo = std::min<T>(lo, x); }
  T x = maxval(v, i), y = minval(v, j);
  REQUIRE(g, x == hi, "maxval is " << x << ", not " << hi); REQUIRE(g, at(v, i, T()) == hi, "maxval's index " << i << " holds " << at(v, i, T()) << ", not " << hi);
  REQUIRE(g, y == lo, "minval is " << y << ", not " << lo); REQUIRE(g, at(v, j, T()) == lo, "minval's index " << j << " holds " << at(v, j, T()) << ", not " << lo);
}
template <class T> struct all;
template <class T> struct reals { template <class V> static void go(pbt::Gen &g, V const &v, Arr<T> const &a, bool ex)
{
  sums(g, v, a, ex); extrema(g, v, a); mags(g, v, a);
  // over expressions
  L s = 0; for (auto x : a.v) s += x * 2.0L + 1; REQUIRE(g, near(sumval(v * T(2) + T(1)), s, ex ? lmag(s) : s + 1000 * a.v.size(), (ex ? 1 : a.v.size()) * 2 * std::numeric_limits<T>::epsilon()), "sumval of an expression is " << sumval(v * T(2) + T(1)) << ", not " << s);
  Arr<T> b(a); for (auto &x : b.v) x = -x; extrema(g, -v, b); mags(g, -v, b);
  size_t c = 0; for (auto x : a.v) c += x > 0; REQUIRE(g, sumval(v > T(0)) == c, "sumval of a boolean expression is " << sumval(v > T(0)) << ", not " << c); REQUIRE(g, anytrue(v > T(0)) == (c > 0) && alltrue(v > T(0)) == (c == a.v.size()), "anytrue/alltrue of a comparison");
} };
template <> struct all<float> : reals<float> {};
template <> struct all<double> : reals<double> {};
template <class T> struct all<std::complex<T>> { template <class V> static void go(pbt::Gen &g, V const &v, Arr<std::complex<T>> const &a, bool ex)
{
  sums(g, v, a, ex); mags(g, v, a); magsqs(g, v, a);
  LC s = 0; for (auto x : a.v) s += std::conj(LC(x)); REQUIRE(g, near(sumval(conj(v)), s, ex ? lmag(s) : 1e4L * a.v.size(), (ex ? 1 : a.v.size()) * 2 * std::numeric_limits<T>::epsilon()), "sumval of conj is " << sumval(conj(v)) << ", not " << s);
} };
template <> struct all<int> { template <class V> static void go(pbt::Gen &g, V const &v, Arr<int> const &a, bool)
{
  int s = 0, q = 0, n = ~0, o = 0; for (auto x : a.v) { s += x; q += x * x; n &= x; o |= x; }
  REQUIRE(g, sumval(v) == s, "sumval is " << sumval(v) << ", not " << s); REQUIRE(g, sumsqval(v) == q, "sumsqval is " << sumsqval(v) << ", not " << q);
  REQUIRE(g, alltrue(v) == n, "alltrue is " << alltrue(v) << ", not " << n); REQUIRE(g, anytrue(v) == o, "anytrue is " << anytrue(v) << ", not " << o);
  extrema(g, v, a); mags(g, v, a);
} };
template <> struct all<bool> { template <class V> static void go(pbt::Gen &g, V const &v, Arr<bool> const &a, bool)
{
  size_t c = 0; for (auto x : a.v) c += x;
  REQUIRE(g, sumval(v) == c, "sumval is " << sumval(v) << ", not " << c); REQUIRE(g, alltrue(v) == (c == a.v.size()), "alltrue of " << c << " of " << a.v.size()); REQUIRE(g, anytrue(v) == (c > 0), "anytrue of " << c);
} };
template <class T> Arr<T> contents(pbt::Gen &g, bool &ex, size_t a, size_t b = 1, size_t c = 1)
{
  ex = true; auto k = g.pick({pbt::small_int, pbt::signed_int, pbt::signed_int, pbt::real_unit}); if (!std::is_floating_point<typename is_cplx<T>::real>::value && k == pbt::real_unit) k = pbt::signed_int; if (k == pbt::real_unit) ex = false;
  Arr<T> r = data<T>(g.dataseed(), k, a, b, c); if (std::is_same<T, bool>::value && g.flip()) { bool all = g.flip(); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = T(all); if (g.flip()) r.v[g.draw(r.v.size())] = T(!all); }
  else if (g.flip(1, 3)) { size_t i = g.draw(r.v.size()); r.v[i] = T(g.flip() ? 15 : -15); g.label("extreme placed"); }
  return r;
}
template <class T, int M> void vec(pbt::Gen &g, size_t lo, size_t hi)
{ size_t n = hi > 1000 ? lo + g.draw(hi - lo) : g.large(g.len(lo, hi), 2100, 200); bool ex; auto a = contents<T>(g, ex, n); with_vector<T, M>(g, n, [&](auto &o) { o.set(a); g.note() << o.kind << n << a; g.label(o.kind); if (n > 1) g.nontrivial(); all<T>::go(g, o.view, a, ex); o.holds(g, a, "operand"); }); }
template <class T, int M> void mat(pbt::Gen &g, size_t hi)
{ size_t n = g.len(1, hi), m = g.len(1, hi); g.large({&n, &m}, 300, 40, 200); bool ex; auto a = contents<T>(g, ex, n, m); with_matrix<T, M>(g, n, m, [&](auto &o) { o.set(a); g.note() << o.kind << n << 'x' << m << a; g.label(o.kind); if (n * m > 1) g.nontrivial(); all<T>::go(g, o.view, a, ex); o.holds(g, a, "operand"); }); }
template <class T, int M> void ten(pbt::Gen &g, size_t hi)
{ size_t n = g.len(1, hi), m = g.len(1, hi), l = g.len(1, hi); g.large({&n, &m, &l}, 100, 14, 200); bool ex; auto a = contents<T>(g, ex, n, m, l); with_tensor<T, M>(g, n, m, l, [&](auto &o) { o.set(a); g.note() << o.kind << n << 'x' << m << 'x' << l << a; g.label(o.kind); if (n * m * l > 1) g.nontrivial(); all<T>::go(g, o.view, a, ex); o.holds(g, a, "operand"); }); }

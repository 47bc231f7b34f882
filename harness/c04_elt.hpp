// C04: elementwise functions against their definitions
#include <vsip/math.hpp>
#include <vsip/complex.hpp>
#include "views.hpp"
using namespace pv;
typedef long double L; typedef std::complex<long double> LC;
typedef std::complex<float> CF; typedef std::complex<double> CD;

enum Dom { any, ints, pos, unit, nonzero, special, angle, boolean, bits, small };
template <class T> struct gen1 { static T of(Dom d, uint64_t s, uint64_t i)
{
  uint64_t h = pbt::mix(s * 977 + i * 31 + 7);
  double u = (double)(h >> 11) / 9007199254740992.0, w = pbt::mix(h) % 2 ? 1 : -1;
  if (s == 0) u = (double)((i * 5) % 8) / 8;
  switch (d)
  {
    case any: return (T)(w * u * 20);
    case ints: return (T)(double)((int64_t)(h % 19) - 9);
    case pos: return (T)(0.05 + u * 30);
    case unit: return (T)(w * u);
    case small: return (T)(w * u * 3);
    case angle: return (T)(w * u * 3.1);
    case nonzero: { double v = (double)(1 + h % 9); return (T)(w * v); }
    case boolean: return (T)(h % 2);
    case bits: return (T)(int64_t)(h % 65536);
    case special: switch (h % 7) { case 0: return (T)std::numeric_limits<double>::quiet_NaN(); case 1: return (T)std::numeric_limits<double>::infinity(); case 2: return (T)-std::numeric_limits<double>::infinity(); case 3: return std::numeric_limits<T>::denorm_min(); case 4: return (T)0; default: return (T)(w * u * 5); }
  }
  return T();
} };
template <class T> struct gen1<std::complex<T>> { static std::complex<T> of(Dom d, uint64_t s, uint64_t i)
{ return d == special ? std::complex<T>(gen1<T>::of(d, s, 2 * i), gen1<T>::of(pbt::mix(i + s) % 2 ? special : small, s, 2 * i + 1)) : std::complex<T>(gen1<T>::of(d, s, 2 * i), gen1<T>::of(d == unit ? small : d, s + 1, 2 * i + 1)); } };

// widening for the oracle
template <class T> struct wide { typedef T type; };
template <> struct wide<float> { typedef L type; };
template <> struct wide<double> { typedef L type; };
template <class T> struct wide<std::complex<T>> { typedef LC type; };
template <class T> typename wide<T>::type W(T x) { return typename wide<T>::type(x); }

template <class T> L eps() { return std::numeric_limits<T>::epsilon(); }
template <class R> struct closeto { template <class X> static bool is(R got, X want, L tol) { return got == (R)want || tol > 0; } };
template <> struct closeto<float> { static bool is(float g, L w, L tol) { return pbt::same((L)g, (L)(float)w) || std::abs((L)g - w) <= tol * eps<float>() * (1 + std::abs(w)); } };
template <> struct closeto<double> { static bool is(double g, L w, L tol) { return pbt::same((L)g, (L)(double)w) || std::abs((L)g - w) <= tol * eps<double>() * (1 + std::abs(w)); } };
template <class T> struct closeto<std::complex<T>> { static bool is(std::complex<T> g, LC w, L tol) { LC x(g); return x == LC(std::complex<T>(w)) || std::abs(x - w) <= tol * eps<T>() * (1 + std::abs(w)); } };

template <class R, class V> void same_type(pbt::Gen &g, V const &, char const *name)
{ REQUIRE(g, (std::is_same<typename V::value_type, R>::value), name << ": the result view has another element type than documented"); }
// every way of looking at the view expression e(): elements, assignment, and the block's own traversal
template <bool ok> struct results_ {template <class R, class E, class X> static void go(pbt::Gen &g, char const *name, E const &e, std::vector<X> const &want, L tol, std::string const &how)
{
  size_t n = want.size();
  Vector<R> out(n); out = e;
  Vector<R, Dense<1, R>> made(e);
  for (size_t i = 0; i < n; ++i)
  {
    REQUIRE(g, closeto<R>::is(e.get(i), want[i], tol), name << how << ": element " << i << " reads " << pbt::show(e.get(i)) << ", not " << pbt::show(want[i]));
    REQUIRE(g, closeto<R>::is(out.get(i), want[i], tol), name << how << " assigned: element " << i << " is " << pbt::show(out.get(i)) << ", not " << pbt::show(want[i]));
    REQUIRE(g, closeto<R>::is(made.get(i), want[i], tol), name << how << " constructed: element " << i << " is " << pbt::show(made.get(i)) << ", not " << pbt::show(want[i]));
  }
} };
template <> struct results_<false> { template <class R, class E, class X> static void go(pbt::Gen &g, char const *name, E const &, std::vector<X> const &, L, std::string const &how) { g.fail(std::string(name) + how + ": the result has another element type than documented"); } };
template <class R, class E, class X> void results(pbt::Gen &g, char const *name, E const &e, std::vector<X> const &want, L tol, std::string const &how)
{ results_<std::is_same<R, typename E::value_type>::value>::template go<R>(g, name, e, want, tol, how); }
// the scalar form's result, as R
template <class R, class T, bool c = is_cplx<T>::value && !is_cplx<R>::value> struct as_ { static R of(pbt::Gen &, char const *, T x) { return R(x); } };
template <class R, class T> struct as_<R, T, true> { static R of(pbt::Gen &g, char const *name, T) { g.fail(std::string(name) + ": the scalar form returns a complex value"); return R(); } };
template <class R, class T> R as(pbt::Gen &g, char const *name, T x) { return as_<R, T>::of(g, name, x); }
template <class T> std::string args(T a) { return "(" + pbt::show(a) + ")"; }

template <class T> Arr<T> values(pbt::Gen &g, Dom d, size_t n) { Arr<T> a(n); uint64_t s = g.dataseed(); for (size_t i = 0; i < n; ++i) a.v[i] = gen1<T>::of(d, s, i); return a; }

template <class R, class T, class F, class O> void unary(pbt::Gen &g, char const *name, Dom d, F f, O o, L tol, bool scalar = true)
{
  size_t n = g.large(g.len(1, 24), 2000); Arr<T> a = values<T>(g, d, n); g.note() << name << "(" << a << ")"; g.label(name); g.nontrivial();
  std::vector<decltype(o(T()))> want; for (size_t i = 0; i < n; ++i) want.push_back(o(a.v[i]));
  with_vector<T, V_dense + V_subset>(g, n, [&](auto &x) { x.set(a); same_type<R>(g, f(x.view), name); results<R>(g, name, f(x.view), want, tol, std::string(" of a ") + x.kind); x.holds(g, a, "operand"); });
  (void)scalar;
}
template <class R, class T, class F, class O> void unary_s(pbt::Gen &g, char const *name, Dom d, F f, O o, L tol)
{
  unary<R, T>(g, name, d, f, o, tol);
  Arr<T> a = values<T>(g, d, 4);
  for (size_t i = 0; i < 4; ++i) { T v = a.v[i]; R r = as<R>(g, name, f(v)); REQUIRE(g, closeto<R>::is(r, o(v), tol), name << args(v) << " is " << pbt::show(r) << ", not " << pbt::show(o(v))); }
}
template <bool S> struct scal { template <class R, class F, class O, class... A> static void go(pbt::Gen &g, char const *name, F f, O o, L tol, A... a)
{ R r = as<R>(g, name, f(a...)); auto w = o(a...); REQUIRE(g, closeto<R>::is(r, w, tol), name << " of scalars is " << pbt::show(r) << ", not " << pbt::show(w)); } };
template <> struct scal<false> { template <class R, class F, class O, class... A> static void go(pbt::Gen &, char const *, F, O, L, A...) {} };

template <class U> void tie(U &u, U t) { u = t; }
inline void tie(std::vector<bool>::reference u, bool t) { u = t; }
template <class U, class T> void tie(U &, T const &) {}
template <bool M> struct detail2 { template <class R, class F, class V, class T, class Y, class U, class X> static void go(pbt::Gen &g, char const *name, F f, V const &x, T a, Y const &y, U b, std::vector<X> const &w1, std::vector<X> const &w2, L tol)
{
  same_type<R>(g, f(x, b), name);
  results<R>(g, name, f(x, b), w1, tol, " of a view and a scalar");
  results<R>(g, name, f(a, y), w2, tol, " of a scalar and a view");
} };
template <> struct detail2<false> { template <class R, class F, class V, class T, class Y, class U, class X> static void go(pbt::Gen &, char const *, F, V const &, T, Y const &, U, std::vector<X> const &, std::vector<X> const &, L) {} };
template <class R, class T, class U, bool S, bool M, class F, class O> void binary(pbt::Gen &g, char const *name, Dom d, Dom e, F f, O o, L tol)
{
  size_t n = g.large(g.len(1, 24), 2000); Arr<T> a = values<T>(g, d, n); Arr<U> b = values<U>(g, e, n);
  if (g.flip(1, 3)) for (size_t i = 0; i < n; i += 2) if (d == e) tie(b.v[i], a.v[i]);
  g.note() << name << "(" << a << ", " << b << ")"; g.label(name); g.nontrivial();
  typedef decltype(o(T(), U())) X; std::vector<X> want, w1, w2;
  for (size_t i = 0; i < n; ++i) { want.push_back(o(a.v[i], b.v[i])); w1.push_back(o(a.v[i], b.v[0])); w2.push_back(o(a.v[0], b.v[i])); }
  with_vector<T, V_dense + V_subset>(g, n, [&](auto &x) {
    Vector<U> y(n); for (size_t i = 0; i < n; ++i) y.put(i, b.v[i]);
    x.set(a);
    same_type<R>(g, f(x.view, y), name);
    results<R>(g, name, f(x.view, y), want, tol, std::string(" of a ") + x.kind + " and a vector");
    detail2<M>::template go<R>(g, name, f, x.view, T(a.v[0]), y, U(b.v[0]), w1, w2, tol);
    x.holds(g, a, "operand"); });
  scal<S>::template go<R>(g, name, f, o, tol, T(a.v[0]), U(b.v[0]));
}

template <class R, class T, class F, class O> void ternary(pbt::Gen &g, char const *name, F f, O o, L tol)
{
  size_t n = g.large(g.len(1, 16), 2000); Arr<T> a[3]; Dom d = is_cplx<T>::value ? small : ints; for (int k = 0; k < 3; ++k) a[k] = values<T>(g, d, n);
  g.note() << name << "(" << a[0] << ", " << a[1] << ", " << a[2] << ")"; g.label(name); g.nontrivial();
  typedef decltype(o(T(), T(), T())) X; std::vector<X> w[8];
  for (size_t i = 0; i < n; ++i) for (int m = 0; m < 8; ++m) w[m].push_back(o(a[0].v[m & 1 ? i : 0], a[1].v[m & 2 ? i : 0], a[2].v[m & 4 ? i : 0]));
  with_vector<T, V_dense + V_subset>(g, n, [&](auto &x) {
    Vector<T> y(n), z(n); for (size_t i = 0; i < n; ++i) { y.put(i, a[1].v[i]); z.put(i, a[2].v[i]); }
    x.set(a[0]); T p = a[0].v[0], q = a[1].v[0], r = a[2].v[0];
    same_type<R>(g, f(x.view, y, z), name);
    results<R>(g, name, f(x.view, y, z), w[7], tol, " of three views");
    results<R>(g, name, f(x.view, y, r), w[3], tol, "(view,view,scalar)");
    results<R>(g, name, f(x.view, q, z), w[5], tol, "(view,scalar,view)");
    results<R>(g, name, f(p, y, z), w[6], tol, "(scalar,view,view)");
    results<R>(g, name, f(x.view, q, r), w[1], tol, "(view,scalar,scalar)");
    results<R>(g, name, f(p, y, r), w[2], tol, "(scalar,view,scalar)");
    results<R>(g, name, f(p, q, z), w[4], tol, "(scalar,scalar,view)");
    x.holds(g, a[0], "operand"); });
  R s = as<R>(g, name, f(T(a[0].v[0]), T(a[1].v[0]), T(a[2].v[0])));
  REQUIRE(g, closeto<R>::is(s, w[0][0], tol), name << " of three scalars is " << pbt::show(s) << ", not " << pbt::show(w[0][0]));
}
struct Case { void (*fn)(pbt::Gen &); };
#define FN1(f) [](auto const &x) { return f(x); }
#define FN2(f) [](auto const &x, auto const &y) { return f(x, y); }
#define FN3(f) [](auto const &x, auto const &y, auto const &z) { return f(x, y, z); }
#define OP2(op) [](auto const &x, auto const &y) { return x op y; }
// U(name, T, R, domain, tolerance in eps, oracle of x)
#define U(f, T, R, dom, tol, ...) { [](pbt::Gen &g) { unary_s<R, T>(g, #f "<" #T ">", dom, [](auto const &x) { return vsip::f(x); }, [](T v) { auto x = W(v); (void)x; return __VA_ARGS__; }, tol); } }
#define B(f, T, Y, R, d, e, tol, S, ...) { [](pbt::Gen &g) { binary<R, T, Y, S, true>(g, #f "<" #T "," #Y ">", d, e, [](auto const &x, auto const &y) { return vsip::f(x, y); }, [](T v, Y w) { auto x = W(v); auto y = W(w); (void)x; (void)y; return __VA_ARGS__; }, tol); } }
#define O(op, T, Y, R, d, e, tol, ...) { [](pbt::Gen &g) { binary<R, T, Y, false, true>(g, "operator" #op "<" #T "," #Y ">", d, e, [](auto const &x, auto const &y) { return x op y; }, [](T v, Y w) { auto x = W(v); auto y = W(w); (void)x; (void)y; return __VA_ARGS__; }, tol); } }
#define TT(f, T, R, tol, ...) { [](pbt::Gen &g) { ternary<R, T>(g, #f "<" #T ">", [](auto const &x, auto const &y, auto const &z) { return vsip::f(x, y, z); }, [](T a, T b, T c) { auto x = W(a); auto y = W(b); auto z = W(c); return __VA_ARGS__; }, tol); } }

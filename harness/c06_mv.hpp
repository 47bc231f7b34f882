// C06: matrix and vector products
#include <vsip/math.hpp>
#include "views.hpp"
#include <utility>
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <class T> T cj(T x) { return x; }
template <class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }
// f(integral_constant<int, k>) for a drawn k < N
template <class F, int... I> void one_of(pbt::Gen &g, F const &f, std::integer_sequence<int, I...>)
{ int k = g.draw(sizeof...(I)); int x[] = {(k == I ? (f(std::integral_constant<int, I>()), 0) : 0)...}; (void)x; }
template <int N, class F> void one_of(pbt::Gen &g, F const &f) { one_of(g, f, std::make_integer_sequence<int, N>()); }
constexpr int mk_(int i) { int k[] = {M_row, M_col, M_subset, M_other, M_aligned, M_subtrans}; return k[i]; }
constexpr int vk_(int i) { int k[] = {V_dense, V_subset, V_other, V_col}; return k[i]; }
template <class T> using Mod = typename ovxx::Promotion<T, T>::type;
template <class A, class B> using PR = typename vsip::Promotion<A, B>::type;
inline size_t dim_(pbt::Gen &g) { return g.large(g.draw(4) ? 1 + g.draw(7) : g.draw(3) ? 1 + g.draw(20) : 1, 300, 500); }
template <class T> Arr<T> ints(pbt::Gen &g, size_t a, size_t b = 1) { return data<T>(g.dataseed(), g.pick({pbt::ramp, pbt::signed_int, pbt::small_int}), a, b); }
// integers, so small that all results are exact; in double precision, too large for single precision
template <class T> Arr<T> small(pbt::Gen &g, size_t a, size_t b = 1)
{
  Arr<T> r = data<T>(g.dataseed(), g.pick({pbt::signed_int, pbt::small_int}), a, b);
  if (std::is_same<typename is_cplx<T>::real, double>::value) for (auto &x : r.v) x = x * T(4099);
  return r;
}
inline void sizes(pbt::Gen &g, size_t n, size_t k, size_t m) { g.note() << n << 'x' << k << " * " << k << 'x' << m << ' '; if (n * k * m > 1) g.nontrivial(); }
// an operand keeps its value
template <class O, class T> void kept(pbt::Gen &g, O &o, Arr<T> const &a) { o.holds(g, a, "an operand"); }

template <class TR, class TA, class TB, class FA, class FB> Arr<TR> product(Arr<TA> const &a, Arr<TB> const &b, size_t n, size_t K, size_t m, FA fa, FB fb)
{
  Arr<TR> r(n, m);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { TR s = TR(); for (size_t k = 0; k < K; ++k) s += TR(fa(a, i, k)) * TR(fb(b, k, j)); r.at(i, j) = s; }
  return r;
}
struct N_ { template <class T> T operator()(Arr<T> const &a, size_t i, size_t j) const { return a.at(i, j); } };
struct T_ { template <class T> T operator()(Arr<T> const &a, size_t i, size_t j) const { return a.at(j, i); } };
struct H_ { template <class T> T operator()(Arr<T> const &a, size_t i, size_t j) const { return cj(a.at(j, i)); } };
struct J_ { template <class T> T operator()(Arr<T> const &a, size_t i, size_t j) const { return cj(a.at(i, j)); } };

template <class T, class V> void constructed(pbt::Gen &g, V const &r, Arr<T> const &w, char const *what)
{
  Arr<T> got = read(r);
  REQUIRE(g, got.n[0] == w.n[0] && got.n[1] == w.n[1], what << " has shape " << got.n[0] << 'x' << got.n[1]);
  for (size_t i = 0; i < w.v.size() && i < got.v.size(); ++i) REQUIRE(g, eq<T>(got.v[i], w.v[i]), what << ": constructed element " << i << " is " << got.v[i] << ", not " << w.v[i]);
}

// matrix-matrix: form 0 prod, 1 prodt, 2 prodh, 3 prodj
template <int F> struct form;
template <> struct form<0> { typedef N_ fb; enum { t = 0 }; static char const *name() { return "prod"; } template <class A, class B> static auto go(A a, B b) { return vsip::prod(a, b); } };
template <> struct form<1> { typedef T_ fb; enum { t = 1 }; static char const *name() { return "prodt"; } template <class A, class B> static auto go(A a, B b) { return vsip::prodt(a, b); } };
template <> struct form<2> { typedef H_ fb; enum { t = 1 }; static char const *name() { return "prodh"; } template <class A, class B> static auto go(A a, B b) { return vsip::prodh(a, b); } };
template <> struct form<3> { typedef J_ fb; enum { t = 0 }; static char const *name() { return "prodj"; } template <class A, class B> static auto go(A a, B b) { return vsip::prodj(a, b); } };

template <class TA, class TB, int F, int N> void matmat(pbt::Gen &g)
{
  typedef PR<TA, TB> TR; typedef form<F> fm;
  size_t n = dim_(g), K = dim_(g), m = dim_(g); sizes(g, n, K, m);
  Arr<TA> a = small<TA>(g, n, K); Arr<TB> b = fm::t ? small<TB>(g, m, K) : small<TB>(g, K, m);
  Arr<TR> w = product<TR>(a, b, n, K, m, N_(), typename fm::fb());
  one_of<N>(g, [&](auto I) { one_of<N>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_matrix<TA, mk_(i)>(g, n, K, [&](auto &oa) { with_matrix<TB, mk_(j)>(g, b.n[0], b.n[1], [&](auto &ob) { with_matrix<TR, mk_((i + j) % N)>(g, n, m, [&](auto &oc) {
      oa.set(a); ob.set(b); oc.set(Arr<TR>(n, m)); g.note() << fm::name() << ": " << oa.kind << " * " << ob.kind << " to " << oc.kind;
      switch (g.draw(3))
      {
        case 0: case 1: oc.view = fm::go(oa.view, ob.view); oc.holds(g, w, fm::name()); break;
        case 2: { Matrix<TR> r = fm::go(oa.view, ob.view); constructed(g, r, w, fm::name()); }
      }
      kept(g, oa, a); kept(g, ob, b);
    }); }); });
  }); });
}
template <class TA, class TB, int N, int M> void matvec(pbt::Gen &g)
{
  typedef PR<TA, TB> TR;
  size_t n = dim_(g), K = dim_(g); sizes(g, n, K, 1);
  Arr<TA> a = small<TA>(g, n, K); Arr<TB> b = small<TB>(g, K);
  Arr<TR> w = product<TR>(a, b, n, K, 1, N_(), N_());
  one_of<N>(g, [&](auto I) { one_of<M>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_matrix<TA, mk_(i)>(g, n, K, [&](auto &oa) { with_vector<TB, vk_(j)>(g, K, [&](auto &ob) { with_vector<TR, vk_((i + j) % M)>(g, n, [&](auto &oc) {
      oa.set(a); ob.set(b); oc.set(Arr<TR>(n)); g.note() << oa.kind << " * " << ob.kind << " to " << oc.kind;
      switch (g.draw(3))
      {
        case 0: case 1: oc.view = vsip::prod(oa.view, ob.view); oc.holds(g, w, "matrix-vector prod"); break;
        case 2: { Vector<TR> r = vsip::prod(oa.view, ob.view); constructed(g, r, w, "matrix-vector prod"); }
      }
      kept(g, oa, a); kept(g, ob, b);
    }); }); });
  }); });
}
template <class TA, class TB, int N, int M> void vecmat(pbt::Gen &g)
{
  typedef PR<TA, TB> TR;
  size_t m = dim_(g), K = dim_(g); sizes(g, 1, K, m);
  Arr<TA> a = small<TA>(g, K); Arr<TB> b = small<TB>(g, K, m);
  Arr<TR> w = product<TR>(a, b, 1, K, m, T_(), N_()); w.n[0] = m; w.n[1] = 1;
  one_of<N>(g, [&](auto I) { one_of<M>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_matrix<TB, mk_(i)>(g, K, m, [&](auto &ob) { with_vector<TA, vk_(j)>(g, K, [&](auto &oa) { with_vector<TR, vk_((i + j) % M)>(g, m, [&](auto &oc) {
      oa.set(a); ob.set(b); oc.set(Arr<TR>(m)); g.note() << oa.kind << " * " << ob.kind << " to " << oc.kind;
      switch (g.draw(3))
      {
        case 0: case 1: oc.view = vsip::prod(oa.view, ob.view); oc.holds(g, w, "vector-matrix prod"); break;
        case 2: { Vector<TR> r = vsip::prod(oa.view, ob.view); constructed(g, r, w, "vector-matrix prod"); }
      }
      kept(g, oa, a); kept(g, ob, b);
    }); }); });
  }); });
}
template <int D, class A, class B> auto prodD(std::integral_constant<int, 3>, A a, B b) { return vsip::prod3(a, b); }
template <int D, class A, class B> auto prodD(std::integral_constant<int, 4>, A a, B b) { return vsip::prod4(a, b); }
template <class TA, class TB, int D> void fixed(pbt::Gen &g)
{
  typedef PR<TA, TB> TR; std::integral_constant<int, D> d; g.nontrivial();
  Arr<TA> a = small<TA>(g, D, D); Arr<TB> b = small<TB>(g, D, D), x = small<TB>(g, D);
  Arr<TR> w = product<TR>(a, b, D, D, D, N_(), N_()), y = product<TR>(a, x, D, D, 1, N_(), N_());
  one_of<4>(g, [&](auto I) { one_of<4>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_matrix<TA, mk_(i)>(g, D, D, [&](auto &oa) { oa.set(a);
      if (g.flip()) with_matrix<TB, mk_(j)>(g, D, D, [&](auto &ob) { with_matrix<TR, mk_((i + j) % 4)>(g, D, D, [&](auto &oc) {
        ob.set(b); oc.set(Arr<TR>(D, D)); oc.view = prodD<D>(d, oa.view, ob.view); oc.holds(g, w, "prod3/prod4 of matrices"); kept(g, oa, a); kept(g, ob, b); }); });
      else with_vector<TB, vk_(j)>(g, D, [&](auto &ob) { with_vector<TR, vk_((i + j) % 4)>(g, D, [&](auto &oc) {
        ob.set(x); oc.set(Arr<TR>(D)); oc.view = prodD<D>(d, oa.view, ob.view); oc.holds(g, y, "prod3/prod4 of a matrix and a vector"); kept(g, oa, a); kept(g, ob, x); }); });
    });
  }); });
}
template <class TA, class TB, class A, class B, class T, class U> void do_cvjdot(pbt::Gen &, TA, TB, A const &, B const &, Arr<T> const &, Arr<U> const &) {}
template <class R, class S, class A, class B, class T, class U> void do_cvjdot(pbt::Gen &g, std::complex<R>, std::complex<S>, A const &a, B const &b, Arr<T> const &x, Arr<U> const &y)
{
  typedef PR<T, U> TR; TR s = TR(); for (size_t i = 0; i < x.v.size(); ++i) s += TR(x.v[i]) * std::conj(TR(y.v[i]));
  auto r = vsip::cvjdot(a, b); REQUIRE(g, eq<TR>(r, s), "cvjdot is " << r << ", not " << s);
}
template <class TA, class TB> void dots(pbt::Gen &g)
{
  typedef PR<TA, TB> TR; size_t n = g.large(g.len(1, 60), 3000); if (n > 1) g.nontrivial();
  Arr<TA> a = small<TA>(g, n); Arr<TB> b = small<TB>(g, n); TR s = TR(); for (size_t i = 0; i < n; ++i) s += TR(a.v[i]) * TR(b.v[i]);
  one_of<4>(g, [&](auto I) { one_of<4>(g, [&](auto J) {
    with_vector<TA, vk_(decltype(I)::value)>(g, n, [&](auto &oa) { with_vector<TB, vk_(decltype(J)::value)>(g, n, [&](auto &ob) {
      oa.set(a); ob.set(b); g.note() << n << ": " << oa.kind << " . " << ob.kind;
      auto r = vsip::dot(oa.view, ob.view); REQUIRE(g, eq<TR>(r, s), "dot of a " << oa.kind << " and a " << ob.kind << " is " << r << ", not " << s);
      do_cvjdot(g, TA(), TB(), oa.view, ob.view, a, b); kept(g, oa, a); kept(g, ob, b);
    }); });
  }); });
}
template <class T0, class TA, class TB> void outers(pbt::Gen &g)
{
  typedef typename ovxx::Promotion<T0, PR<TA, TB>>::type TR; size_t n = dim_(g), m = dim_(g); if (n * m > 1) g.nontrivial();
  Arr<TA> a = small<TA>(g, n); Arr<TB> b = small<TB>(g, m); T0 alpha = small<T0>(g, 3).v[2];
  Arr<TR> w(n, m), k(m, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { w.at(i, j) = TR(alpha) * TR(a.v[i]) * TR(cj(b.v[j])); k.at(j, i) = TR(alpha) * TR(a.v[i]) * TR(b.v[j]); }
  one_of<4>(g, [&](auto I) { one_of<4>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_vector<TA, vk_(i)>(g, n, [&](auto &oa) { with_vector<TB, vk_(j)>(g, m, [&](auto &ob) {
      oa.set(a); ob.set(b); g.note() << alpha << ", " << oa.kind << ", " << ob.kind;
      if (g.flip()) with_matrix<TR, mk_((i + j) % 4)>(g, n, m, [&](auto &oc) { oc.set(Arr<TR>(n, m)); oc.view = vsip::outer(alpha, oa.view, ob.view); oc.holds(g, w, "outer"); });
      else with_matrix<TR, mk_((i + j) % 4)>(g, m, n, [&](auto &oc) { oc.set(Arr<TR>(m, n)); oc.view = vsip::kron(alpha, oa.view, ob.view); oc.holds(g, k, "kron of vectors"); });
      kept(g, oa, a); kept(g, ob, b);
    }); });
  }); });
}
template <class T0, class TA, class TB> void krons(pbt::Gen &g)
{
  typedef typename ovxx::Promotion<T0, PR<TA, TB>>::type TR; size_t n = 1 + g.draw(4), m = 1 + g.draw(4), p = 1 + g.draw(4), q = 1 + g.draw(4); if (n * m * p * q > 1) g.nontrivial();
  Arr<TA> a = small<TA>(g, n, m); Arr<TB> b = small<TB>(g, p, q); T0 alpha = small<T0>(g, 3).v[2];
  Arr<TR> w(n * p, m * q); for (size_t i = 0; i < n * p; ++i) for (size_t j = 0; j < m * q; ++j) w.at(i, j) = TR(alpha) * TR(a.at(i / p, j / q)) * TR(b.at(i % p, j % q));
  one_of<4>(g, [&](auto I) { one_of<4>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_matrix<TA, mk_(i)>(g, n, m, [&](auto &oa) { with_matrix<TB, mk_(j)>(g, p, q, [&](auto &ob) { with_matrix<TR, mk_((i + j) % 4)>(g, n * p, m * q, [&](auto &oc) {
      oa.set(a); ob.set(b); oc.set(Arr<TR>(n * p, m * q)); oc.view = vsip::kron(alpha, oa.view, ob.view); oc.holds(g, w, "kron of matrices"); kept(g, oa, a); kept(g, ob, b);
    }); }); });
  }); });
}
template <int O> struct mop;
template <> struct mop<0> { typedef N_ f; enum { t = 0 }; static const mat_op_type op = mat_ntrans; };
template <> struct mop<1> { typedef T_ f; enum { t = 1 }; static const mat_op_type op = mat_trans; };
template <> struct mop<2> { typedef H_ f; enum { t = 1 }; static const mat_op_type op = mat_herm; };
template <> struct mop<3> { typedef J_ f; enum { t = 0 }; static const mat_op_type op = mat_conj; };
template <class T0, class TA, class TB, class TC> void gemps(pbt::Gen &g)
{
  enum { NO = is_cplx<TA>::value ? 4 : 2 };
  size_t n = dim_(g), K = dim_(g), m = dim_(g); sizes(g, n, K, m); T0 alpha = small<T0>(g, 3).v[2], beta = g.flip() ? small<T0>(g, 4).v[3] : T0(g.draw(2));
  one_of<NO>(g, [&](auto O) { one_of<4>(g, [&](auto I) { one_of<4>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value, oa_ = decltype(O)::value, ob_ = (oa_ + i + 2 * j + (i ^ j) / 2) % NO; typedef mop<oa_> OA; typedef mop<ob_> OB;
    Arr<TA> a = OA::t ? small<TA>(g, K, n) : small<TA>(g, n, K); Arr<TB> b = OB::t ? small<TB>(g, m, K) : small<TB>(g, K, m); Arr<TC> c = small<TC>(g, n, m);
    Arr<TC> w = product<TC>(a, b, n, K, m, typename OA::f(), typename OB::f()); for (size_t x = 0; x < w.v.size(); ++x) w.v[x] = TC(alpha) * w.v[x] + TC(beta) * c.v[x];
    with_matrix<TA, mk_((i + 2 * oa_) % 6)>(g, a.n[0], a.n[1], [&](auto &oa) { with_matrix<TB, mk_((j + oa_ + 2) % 6)>(g, b.n[0], b.n[1], [&](auto &ob) { with_matrix<TC, mk_((i + 2 * j + oa_) % 6)>(g, n, m, [&](auto &oc) {
      oa.set(a); ob.set(b); oc.set(c); g.note() << alpha << ' ' << beta << " ops " << oa_ << ob_ << ": " << oa.kind << " * " << ob.kind << " to " << oc.kind;
      vsip::gemp<OA::op, OB::op>(alpha, oa.view, ob.view, beta, oc.view); oc.holds(g, w, "gemp"); kept(g, oa, a); kept(g, ob, b);
    }); }); });
  }); }); });
}
template <class T0, class TA, class TC> void gemss(pbt::Gen &g)
{
  enum { NO = is_cplx<TA>::value ? 4 : 2 };
  size_t n = dim_(g), m = dim_(g); if (n * m > 1) g.nontrivial(); T0 alpha = small<T0>(g, 3).v[2], beta = g.flip() ? small<T0>(g, 4).v[3] : T0(g.draw(2));
  one_of<NO>(g, [&](auto O) { one_of<4>(g, [&](auto I) {
    constexpr int i = decltype(I)::value; typedef mop<decltype(O)::value> OA; typename OA::f f;
    Arr<TA> a = OA::t ? small<TA>(g, m, n) : small<TA>(g, n, m); Arr<TC> c = small<TC>(g, n, m), w(n, m);
    for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < m; ++y) w.at(x, y) = TC(alpha) * TC(f(a, x, y)) + TC(beta) * c.at(x, y);
    with_matrix<TA, mk_(i)>(g, a.n[0], a.n[1], [&](auto &oa) { with_matrix<TC, M_row | M_col | M_subset | M_other>(g, n, m, [&](auto &oc) {
      oa.set(a); oc.set(c); vsip::gems<OA::op>(alpha, oa.view, beta, oc.view); oc.holds(g, w, "gems"); kept(g, oa, a);
    }); });
  }); });
}
template <class A, class T> void do_herm(pbt::Gen &, T, A const &, Arr<T> const &, long) {}
template <class A, class R, class T> void do_herm(pbt::Gen &g, std::complex<R>, A const &v, Arr<T> const &a, int)
{ auto r = vsip::herm(v); Arr<T> w(a.n[1], a.n[0]); for (size_t i = 0; i < w.n[0]; ++i) for (size_t j = 0; j < w.n[1]; ++j) w.at(i, j) = std::conj(a.at(j, i)); constructed(g, r, w, "herm"); }
template <class T> void transposes(pbt::Gen &g)
{
  size_t n = dim_(g), m = dim_(g); if (n * m > 1) g.nontrivial(); Arr<T> a = small<T>(g, n, m), w(m, n);
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) w.at(i, j) = a.at(j, i);
  with_matrix<T, M_all>(g, n, m, [&](auto &oa) { oa.set(a); auto r = vsip::trans(oa.view); constructed(g, r, w, "trans"); do_herm(g, T(), oa.view, a, 0); kept(g, oa, a); });
}
template <class TA, class TB> void cumsums(pbt::Gen &g)
{
  if (g.flip())
  {
    size_t n = g.large(g.len(1, 40), 2000); if (n > 1) g.nontrivial(); Arr<TA> a = small<TA>(g, n); Arr<TB> w(n); TB s = TB(); for (size_t i = 0; i < n; ++i) w.v[i] = s += TB(a.v[i]);
    with_vector<TA, V_basic | V_col>(g, n, [&](auto &oa) { with_vector<TB, V_basic>(g, n, [&](auto &ob) { oa.set(a); ob.set(Arr<TB>(n)); vsip::cumsum<0>(oa.view, ob.view); ob.holds(g, w, "cumsum of a vector"); kept(g, oa, a); }); });
    return;
  }
  size_t n = dim_(g), m = dim_(g); if (n * m > 1) g.nontrivial(); Arr<TA> a = small<TA>(g, n, m); Arr<TB> w0(n, m), w1(n, m);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { w0.at(i, j) = TB(a.at(i, j)) + (j ? w0.at(i, j - 1) : TB()); w1.at(i, j) = TB(a.at(i, j)) + (i ? w1.at(i - 1, j) : TB()); }
  with_matrix<TA, M_basic>(g, n, m, [&](auto &oa) { with_matrix<TB, M_basic>(g, n, m, [&](auto &ob) {
    oa.set(a); ob.set(Arr<TB>(n, m)); g.note() << oa.kind << " to " << ob.kind;
    if (g.flip()) { vsip::cumsum<0>(oa.view, ob.view); ob.holds(g, w0, "cumsum<0> of a matrix"); } else { vsip::cumsum<1>(oa.view, ob.view); ob.holds(g, w1, "cumsum<1> of a matrix"); }
    kept(g, oa, a);
  }); });
}
template <class TA, class TB> void vmmuls(pbt::Gen &g)
{
  typedef PR<TA, TB> TR; size_t n = dim_(g), m = dim_(g); if (n * m > 1) g.nontrivial(); int d = g.draw(2);
  Arr<TA> v = small<TA>(g, d ? n : m); Arr<TB> a = small<TB>(g, n, m); Arr<TR> w(n, m), c(n, m);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) w.at(i, j) = TR(v.v[d ? i : j]) * TR(a.at(i, j));
  one_of<4>(g, [&](auto I) { one_of<4>(g, [&](auto J) {
    constexpr int i = decltype(I)::value, j = decltype(J)::value;
    with_vector<TA, vk_(i)>(g, v.v.size(), [&](auto &ov) { with_matrix<TB, mk_(j)>(g, n, m, [&](auto &oa) { with_matrix<TR, mk_((i + j) % 4)>(g, n, m, [&](auto &oc) {
      ov.set(v); oa.set(a); oc.set(c); g.note() << "vmmul<" << d << "> " << ov.kind << " * " << oa.kind << " to " << oc.kind;
      switch (g.draw(2))
      {
        case 0: if (d) oc.view = vsip::vmmul<1>(ov.view, oa.view); else oc.view = vsip::vmmul<0>(ov.view, oa.view); oc.holds(g, w, "vmmul"); break;
        default: { Arr<TR> u(w); for (auto &x : u.v) x += x; if (d) oc.view = vsip::vmmul<1>(ov.view, oa.view) + vsip::vmmul<1>(ov.view, oa.view); else oc.view = vsip::vmmul<0>(ov.view, oa.view) * TR(2); oc.holds(g, u, "vmmul within an expression"); }
      }
      kept(g, ov, v); kept(g, oa, a);
    }); }); });
  }); });
}
template <class T, class P> void modulates(pbt::Gen &g)
{
  typedef std::complex<typename is_cplx<T>::real> C; size_t n = g.large(g.len(1, 40), 2000); if (n > 1) g.nontrivial(); Arr<T> a = small<T>(g, n); Arr<C> w(n);
  P nu = P(pbt::datum(g.dataseed(), 1, pbt::real_unit)) * 3, phi = P(pbt::datum(g.dataseed(), 2, pbt::real_unit)) * 3; double eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon();
  for (size_t i = 0; i < n; ++i) { long double t = (long double)i * nu + phi; w.v[i] = C(std::complex<long double>(a.v[i]) * std::complex<long double>(std::cos(t), std::sin(t))); }
  with_vector<T, V_basic>(g, n, [&](auto &oa) { with_vector<C, V_basic>(g, n, [&](auto &oc) {
    oa.set(a); oc.set(Arr<C>(n)); auto r = vsip::modulate(oa.view, nu, phi, oc.view); oc.holds(g, w, "modulate", [&](C x, C y) { return std::abs(x - y) <= eps * (20 + 4 * n * 3) * 13 * (eps < 1e-10 ? 4099 : 1); });
    REQUIRE(g, std::abs((long double)r - ((long double)n * nu + phi)) <= eps * 8 * (n * 3 + 3), "modulate returns " << r << ", not " << (long double)n * nu + phi); kept(g, oa, a);
  }); });
}
#define P4(name, q, ...) PROP(name, q, q * 8) { __VA_ARGS__(g); }

// C12-C14 solvers: generated systems, residuals against the defining equations in long double
#include <vsip/solvers.hpp>
#include <memory>
#include "views.hpp"
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd; typedef std::complex<long double> cl;
template <class T> struct mk { static T from(cl v) { return T(v.real()); } };
template <class T> struct mk<std::complex<T>> { static std::complex<T> from(cl v) { return std::complex<T>((T)v.real(), (T)v.imag()); } };
template <class T> double eps() { return std::numeric_limits<typename is_cplx<T>::real>::epsilon(); }
// small dense matrices for the oracle
struct Mx
{
  size_t r, c; std::vector<cl> v;
  Mx(size_t r = 0, size_t c = 0) : r(r), c(c), v(r * c) {}
  cl &operator()(size_t i, size_t j) { return v[i * c + j]; } cl operator()(size_t i, size_t j) const { return v[i * c + j]; }
};
template <class T> Mx mx(Arr<T> const &a) { Mx m(a.n[0], a.n[1]); for (size_t i = 0; i < m.v.size(); ++i) m.v[i] = cl(std::real(a.v[i]), std::imag(a.v[i])); return m; }
template <class T> Arr<T> arr(Mx const &m) { Arr<T> a(m.r, m.c); for (size_t i = 0; i < m.v.size(); ++i) a.v[i] = mk<T>::from(m.v[i]); return a; }
inline Mx mul(Mx const &a, Mx const &b) { Mx m(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t k = 0; k < a.c; ++k) for (size_t j = 0; j < b.c; ++j) m(i, j) += a(i, k) * b(k, j); return m; }
inline Mx tr(Mx const &a, bool conj) { Mx m(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) m(j, i) = conj ? std::conj(a(i, j)) : a(i, j); return m; }
inline Mx op(Mx const &a, mat_op_type t) { return t == mat_ntrans ? a : tr(a, t == mat_herm); }
inline Mx sub(Mx a, Mx const &b) { for (size_t i = 0; i < a.v.size(); ++i) a.v[i] -= b.v[i]; return a; }
inline Mx scale(Mx a, cl s) { for (auto &x : a.v) x *= s; return a; }
inline Mx head(Mx const &a, size_t r, size_t c) { Mx m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = i < a.r && j < a.c ? a(i, j) : cl(0); return m; }
inline Mx eye(size_t n, size_t m) { Mx e(n, m); for (size_t i = 0; i < n && i < m; ++i) e(i, i) = 1; return e; }
inline double norm(Mx const &a) { long double s = 0; for (auto &x : a.v) s += std::norm(x); return (double)std::sqrt(s); }
inline bool finite(Mx const &a) { for (auto &x : a.v) if (!std::isfinite((double)x.real()) || !std::isfinite((double)x.imag())) return false; return true; }
// |a| small against tol, with NaN as failure
inline void small(pbt::Gen &g, Mx const &a, double tol, char const *what) { double e = norm(a); if (!(e <= tol)) g.fail(std::string(what) + ": the residual is " + pbt::show(e) + ", more than " + pbt::show(tol)); }
// values
template <class T> Arr<T> values(pbt::Gen &g, size_t n, size_t m)
{
  switch (g.draw(4))
  {
    case 0: return data<T>(g.dataseed(), pbt::signed_int, n, m);
    case 1: case 2: return data<T>(g.dataseed(), pbt::real_unit, n, m);
    default: return data<T>(g.dataseed(), pbt::real_wide, n, m);
  }
}
// a well conditioned matrix of n x m, n >= m: a random one plus a dominant diagonal, rows then shuffled so that pivoting matters
template <class T> Arr<T> well(pbt::Gen &g, size_t n, size_t m)
{
  Arr<T> a = data<T>(g.dataseed(), g.flip() ? pbt::signed_int : pbt::real_unit, n, m), b(n, m); double big = 0; for (auto x : a.v) big = std::max<double>(big, std::abs(x));
  for (size_t j = 0; j < std::min(n, m); ++j) a.at(j, j) += T(typename is_cplx<T>::real((big + 1) * (1 + std::sqrt(double(n)))) * (g.flip() ? 1 : -1));
  size_t s = g.draw(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) b.at((i + s) % n, j) = a.at(i, j);
  return b;
}
enum { MV = M_row | M_col | M_subset | M_transpose | M_subtrans | M_other | M_slice | M_aligned, MS = M_row | M_col | M_subset | M_other };

template <class T, mat_op_type t, class F, class V> Mx lu_solve(F &f, V const &b, pbt::Gen &g, Arr<T> const &rhs)
{ Mx x; with_matrix<T, M_row | M_col | M_subset | M_other>(g, rhs.n[0], rhs.n[1], [&](auto &ox) { ox.set(Arr<T>(rhs.n[0], rhs.n[1])); REQUIRE(g, f.template solve<t>(b, ox.view), "solve returns false"); Arr<T> r = read(ox.view); ox.holds(g, r, "solve"); g.note() << "to " << ox.kind << "; "; x = mx(r); }); return x; }
template <class T, return_mechanism_type R> struct Solve;
template <class T> struct Solve<T, by_reference>
{
  template <mat_op_type t, class F, class V> static Mx lu(pbt::Gen &g, F &f, V const &b, Arr<T> const &rhs) { return lu_solve<T, t>(f, b, g, rhs); }
  template <class F, class V> static Mx chol(pbt::Gen &g, F &f, V const &b, Arr<T> const &rhs)
  { Mx x; with_matrix<T, MS>(g, rhs.n[0], rhs.n[1], [&](auto &ox) { ox.set(Arr<T>(rhs.n[0], rhs.n[1])); REQUIRE(g, f.solve(b, ox.view), "solve returns false"); Arr<T> r = read(ox.view); ox.holds(g, r, "solve"); x = mx(r); }); return x; }
};
template <class T> struct Solve<T, by_value>
{
  template <mat_op_type t, class F, class V> static Mx lu(pbt::Gen &, F &f, V const &b, Arr<T> const &) { return mx(read(f.template solve<t>(b))); }
  template <class F, class V> static Mx chol(pbt::Gen &, F &f, V const &b, Arr<T> const &) { return mx(read(f.solve(b))); }
};
inline void check_solve(pbt::Gen &g, Mx const &A, Mx const &X, Mx const &B, double e)
{ REQUIRE(g, X.r == A.c && X.c == B.c, "the result is " << X.r << 'x' << X.c); small(g, sub(mul(A, X), B), 60. * A.r * e * (norm(A) * norm(X) + norm(B)), "solve"); }

// run(g, kinds): a history over several solvers, each with the matrix it holds
template <class F, class Make, class Decompose, class Use> void history(pbt::Gen &g, Make const &make, Decompose const &decompose, Use const &use)
{
  struct Slot { std::unique_ptr<F> f; Mx a; bool ok; };
  std::vector<Slot> s; s.push_back(Slot{std::unique_ptr<F>(make()), Mx(), false}); int uses = 0;
  auto dec = [&](size_t i) { g.note() << "decompose " << i << ' '; s[i].ok = decompose(*s[i].f, s[i].a); };
  dec(0);
  for (int n = 1 + g.draw(8); n--;)
  {
    size_t i = g.draw(s.size()); int o = g.draw(10);
    if (o == 6) dec(i);
    else if (o == 7 && s.size() < 3) { s.push_back(Slot{std::unique_ptr<F>(new F(*s[i].f)), s[i].a, s[i].ok}); g.note() << "copy " << i << " to " << s.size() - 1 << "; "; }
    else if (o == 8 && s.size() < 3) { s.push_back(Slot{std::unique_ptr<F>(make()), Mx(), false}); dec(s.size() - 1); }
    else if (o == 9)
    {
      size_t j = g.draw(s.size()); F &r = *s[j].f = *s[i].f; REQUIRE(g, &r == s[j].f.get(), "assignment does not return its left side"); if (i != j) { s[j].a = s[i].a; s[j].ok = s[i].ok; } g.note() << "assign " << i << " to " << j << "; "; g.label("assignment");
      if (i != j && s.size() > 1 && g.flip()) { s.erase(s.begin() + i); g.note() << "destroy " << i << "; "; }
    }
    else if (s[i].ok) { g.note() << "use " << i << ' '; use(*s[i].f, s[i].a); ++uses; }
  }
  if (uses > 1) g.nontrivial();
}
inline size_t order(pbt::Gen &g) { return g.large(1 + g.draw(g.flip() ? 6 : g.flip(3, 4) ? 16 : 40), 140, 100); }
template <class T, return_mechanism_type R> void lu(pbt::Gen &g)
{
  typedef lud<T, R> F; size_t N = order(g); g.note() << "order " << N << ": ";
  history<F>(g, [&] { F *f = new F(N); return f; }, [&](F &f, Mx &a) {
    bool sing = g.flip(1, 6); Arr<T> v = g.flip() ? well<T>(g, N, N) : values<T>(g, N, N);
    if (sing) { size_t z = g.draw(N); bool row = g.flip(); for (size_t i = 0; i < N; ++i) (row ? v.at(z, i) : v.at(i, z)) = T(); g.label("singular"); }
    a = mx(v); bool ok = false;
    with_matrix<T, MV>(g, N, N, [&](auto &o) { o.set(v); ok = f.decompose(o.view); o.holds(g, v, "decompose: the matrix"); g.note() << o.kind << "; "; o.set(Arr<T>(N, N)); });
    // a row of zeros may leave a rounded non-zero pivot, a column may not; and a matrix of random values is not singular
    if (sing) { bool col = false; for (size_t j = 0; j < N; ++j) { bool z = true; for (size_t i = 0; i < N; ++i) z = z && v.at(i, j) == T(); col = col || z; } if (col || N == 1) REQUIRE(g, !ok, "a matrix with a column of zeros was decomposed"); return false; }
    double m = 0; for (auto x : v.v) m += std::abs(x); if (!ok) { Mx w = a; bool full = true; // exact check in long double
      for (size_t k = 0; k < N && full; ++k) { size_t p = k; for (size_t i = k; i < N; ++i) if (std::abs(w(i, k)) > std::abs(w(p, k))) p = i; if (std::abs(w(p, k)) <= 1e-3 * m / N) { full = false; break; } for (size_t j = 0; j < N; ++j) std::swap(w(p, j), w(k, j)); for (size_t i = k + 1; i < N; ++i) { cl q = w(i, k) / w(k, k); for (size_t j = k; j < N; ++j) w(i, j) -= q * w(k, j); } }
      REQUIRE(g, !full, "a regular matrix was not decomposed"); }
    return ok;
  }, [&](F &f, Mx const &a) {
    REQUIRE(g, f.length() == N, "length() is " << f.length());
    size_t p = g.large(1 + g.draw(6), 70, 100); Arr<T> b = values<T>(g, N, p); mat_op_type t = g.flip() ? mat_ntrans : is_cplx<T>::value && g.flip() ? mat_herm : mat_trans; Mx x;
    with_matrix<T, MV>(g, N, p, [&](auto &ob) { ob.set(b); g.note() << p << " right-hand sides, " << (t == mat_ntrans ? "plain " : t == mat_trans ? "transposed " : "hermitian ") << ob.kind << "; ";
      if (t == mat_ntrans) x = Solve<T, R>::template lu<mat_ntrans>(g, f, ob.view, b); else if (t == mat_trans) x = Solve<T, R>::template lu<mat_trans>(g, f, ob.view, b); else x = Solve<T, R>::template lu<is_cplx<T>::value ? mat_herm : mat_trans>(g, f, ob.view, b);
      ob.holds(g, b, "the right-hand side"); });
    check_solve(g, op(a, t), x, mx(b), eps<T>() * (1 + a.r));
  });
}
template <class T, return_mechanism_type R> void chol(pbt::Gen &g)
{
  typedef chold<T, R> F; size_t N = order(g); g.note() << "order " << N << ": ";
  history<F>(g, [&] { return new F(g.flip() ? upper : lower, N); }, [&](F &f, Mx &a) {
    Arr<T> h = values<T>(g, N, N), v; Mx H = mx(h), A = mul(tr(H, true), H); double n = norm(A) / N + 1; for (size_t i = 0; i < N; ++i) A(i, i) = cl(A(i, i).real() + n * 0.1, 0);
    bool bad = g.flip(1, 6); if (bad) { A(g.draw(N), 0) = 0; size_t z = g.draw(N); A(z, z) = g.flip() ? cl(-n) : cl(0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) A(i, j) = std::conj(A(j, i)); g.label("not positive"); }
    v = arr<T>(A); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) v.at(i, j) = mk<T>::from(std::conj(cl(std::real(v.at(j, i)), std::imag(v.at(j, i)))));
    a = mx(v); bool ok = false;
    if (g.flip()) { for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (f.uplo() == upper ? j < i : j > i) v.at(i, j) = T(typename is_cplx<T>::real(1000 + i)); g.label("the other triangle has other contents"); }
    with_matrix<T, MV>(g, N, N, [&](auto &o) { o.set(v); ok = f.decompose(o.view); o.holds(g, v, "decompose: the matrix"); g.note() << (f.uplo() == upper ? "upper " : "lower ") << o.kind << "; "; o.set(Arr<T>(N, N)); });
    REQUIRE(g, ok == !bad, (bad ? "a matrix that is not positive definite was decomposed" : "a positive definite matrix was not decomposed"));
    return ok;
  }, [&](F &f, Mx const &a) {
    REQUIRE(g, f.length() == N, "length() is " << f.length());
    size_t p = g.large(1 + g.draw(6), 70, 100); Arr<T> b = values<T>(g, N, p); Mx x;
    with_matrix<T, MV>(g, N, p, [&](auto &ob) { ob.set(b); g.note() << p << " right-hand sides, " << ob.kind << "; "; x = Solve<T, R>::chol(g, f, ob.view, b); ob.holds(g, b, "the right-hand side"); });
    check_solve(g, a, x, mx(b), eps<T>() * (1 + a.r));
  });
}

#include "c12_solve.hpp"
// result of a call that returns it or writes it
template <class T, class F> Mx into(pbt::Gen &g, size_t r, size_t c, F const &f)
{ Mx x; with_matrix<T, MS>(g, r, c, [&](auto &o) { o.set(Arr<T>(r, c)); REQUIRE(g, f(o.view), "returns false"); Arr<T> a = read(o.view); o.holds(g, a, "the result"); x = mx(a); }); return x; }
template <class T> constexpr mat_op_type adj() { return is_cplx<T>::value ? mat_herm : mat_trans; }
template <class T, class M> Mx val(pbt::Gen &g, M const &m, size_t r, size_t c) { REQUIRE(g, m.size(0) == r && m.size(1) == c, "the result is " << m.size(0) << 'x' << m.size(1) << ", not " << r << 'x' << c); return mx(read(m)); }
template <class T, return_mechanism_type R> struct Qr;
template <class T> struct Qr<T, by_reference>
{
  template <mat_op_type t, product_side_type s, class F, class V> static Mx q(pbt::Gen &g, F &f, V const &b, size_t r, size_t c) { return into<T>(g, r, c, [&](auto const &x) { return f.template prodq<t, s>(b, x); }); }
  template <mat_op_type t, class F, class V> static Mx r(pbt::Gen &g, F &f, V const &b, T al, size_t n, size_t c) { return into<T>(g, n, c, [&](auto const &x) { return f.template rsol<t>(b, al, x); }); }
  template <class F, class V> static Mx cov(pbt::Gen &g, F &f, V const &b, size_t n, size_t c) { return into<T>(g, n, c, [&](auto const &x) { return f.covsol(b, x); }); }
  template <class F, class V> static Mx lsq(pbt::Gen &g, F &f, V const &b, size_t n, size_t c) { return into<T>(g, n, c, [&](auto const &x) { return f.lsqsol(b, x); }); }
};
template <class T> struct Qr<T, by_value>
{
  template <mat_op_type t, product_side_type s, class F, class V> static Mx q(pbt::Gen &g, F &f, V const &b, size_t r, size_t c) { return val<T>(g, f.template prodq<t, s>(b), r, c); }
  template <mat_op_type t, class F, class V> static Mx r(pbt::Gen &g, F &f, V const &b, T al, size_t n, size_t c) { return val<T>(g, f.template rsol<t>(b, al), n, c); }
  template <class F, class V> static Mx cov(pbt::Gen &g, F &f, V const &b, size_t n, size_t c) { return val<T>(g, f.covsol(b), n, c); }
  template <class F, class V> static Mx lsq(pbt::Gen &g, F &f, V const &b, size_t n, size_t c) { return val<T>(g, f.lsqsol(b), n, c); }
};
inline bool upper_triangular(Mx const &a, double tol) { for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < i && j < a.c; ++j) if (!((double)std::abs(a(i, j)) <= tol)) return false; return true; }
template <class T, class F> Mx arg(pbt::Gen &g, Arr<T> const &b, F const &f) { Mx x; with_matrix<T, MS | M_transpose>(g, b.n[0], b.n[1], [&](auto &ob) { ob.set(b); g.note() << ob.kind << "; "; x = f(ob.view); ob.holds(g, b, "the argument"); }); return x; }
template <class T, return_mechanism_type R> void qr(pbt::Gen &g)
{
  typedef qrd<T, R> F; size_t n = g.large(1 + g.draw(g.flip() ? 5 : 14), 70, 100), m = n + (g.flip(1, 3) ? 0 : g.large(g.draw(10), 100, 100)); storage_type st = g.pick({qrd_saveq, qrd_saveq1, qrd_nosaveq});
  double e = eps<T>() * (m + 3); size_t k = st == qrd_saveq ? m : n; g.note() << m << 'x' << n << (st == qrd_saveq ? " full: " : st == qrd_saveq1 ? " skinny: " : " none: "); g.label(st == qrd_saveq ? "full Q" : st == qrd_saveq1 ? "skinny Q" : "no Q");
  history<F>(g, [&] { return new F(m, n, st); }, [&](F &f, Mx &a) {
    Arr<T> v = well<T>(g, m, n); a = mx(v); bool ok = false;
    with_matrix<T, MV>(g, m, n, [&](auto &o) { o.set(v); ok = f.decompose(o.view); o.holds(g, v, "decompose: the matrix"); g.note() << o.kind << "; "; o.set(Arr<T>(m, n)); });
    REQUIRE(g, ok, "not decomposed"); return ok;
  }, [&](F &f, Mx const &A) {
    REQUIRE(g, f.rows() == m && f.columns() == n && f.qstorage() == st, "reports " << f.rows() << 'x' << f.columns());
    size_t p = 1 + g.draw(4); typedef Qr<T, R> Q; enum { H = adj<T>() };
    // S is R's inverse
    Mx S = arg<T>(g, arr<T>(eye(n, n)), [&](auto b) { return Q::template r<mat_ntrans>(g, f, b, T(1), n, n); });
    REQUIRE(g, upper_triangular(S, 0), "R's inverse is not upper triangular"); double na = norm(A) + 1, cond = na * (norm(S) + 1), tol = 60 * e * cond; Mx Q1 = mul(A, S);
    small(g, sub(mul(tr(Q1, true), Q1), eye(n, n)), tol, "A R^-1 has orthonormal columns");
    Arr<T> b; Mx x;
    switch (g.draw(st == qrd_nosaveq ? 2 : 4))
    {
      case 0: { // solve with R
        b = values<T>(g, n, p); T al = pbt::make<T>::from(g.draw(20), 3, pbt::signed_int); bool t = g.flip(); g.note() << (t ? "rsol adjoint " : "rsol ");
        x = arg<T>(g, b, [&](auto v) { return t ? Q::template r<(mat_op_type)H>(g, f, v, al, n, p) : Q::template r<mat_ntrans>(g, f, v, al, n, p); });
        Mx w = scale(mul(t ? tr(S, true) : S, mx(b)), cl(std::real(al), std::imag(al))); small(g, sub(x, w), tol * (norm(w) + norm(S) * norm(mx(b))), "rsol"); break; }
      case 1: { // covariance
        b = values<T>(g, n, p); g.note() << "covsol "; x = arg<T>(g, b, [&](auto v) { return Q::cov(g, f, v, n, p); });
        Mx AA = mul(tr(A, true), A); small(g, sub(mul(AA, x), mx(b)), 100 * e * cond * (norm(AA) * norm(x) + norm(mx(b))), "covsol"); break; }
      case 2: { // least squares: the residual is orthogonal to A's columns
        b = values<T>(g, m, p); g.note() << "lsqsol "; x = arg<T>(g, b, [&](auto v) { return Q::lsq(g, f, v, n, p); });
        Mx r = sub(mul(A, x), mx(b)); small(g, mul(tr(A, true), r), 100 * e * cond * na * (norm(mx(b)) + na * norm(x)), "lsqsol"); break; }
      case 3: { // products with Q, Q from the product with the identity
        Mx q = arg<T>(g, arr<T>(eye(k, k)), [&](auto v) { return Q::template q<mat_ntrans, mat_lside>(g, f, v, m, k); });
        small(g, sub(mul(tr(q, true), q), eye(k, k)), 60 * e * m, "Q has orthonormal columns"); small(g, sub(head(q, m, n), Q1), tol * n, "Q is A R^-1");
        bool t = g.flip(), l = g.flip(); b = l ? values<T>(g, t ? m : k, p) : values<T>(g, p, t ? k : m); g.note() << "prodq " << (t ? "adjoint " : "") << (l ? "left " : "right "); g.label("product with Q");
        size_t r = l ? (t ? k : m) : p, c = l ? p : (t ? m : k); Mx o = t ? tr(q, true) : q, B = mx(b);
        x = arg<T>(g, b, [&](auto v) { return t ? l ? Q::template q<(mat_op_type)H, mat_lside>(g, f, v, r, c) : Q::template q<(mat_op_type)H, mat_rside>(g, f, v, r, c) : l ? Q::template q<mat_ntrans, mat_lside>(g, f, v, r, c) : Q::template q<mat_ntrans, mat_rside>(g, f, v, r, c); });
        small(g, sub(x, l ? mul(o, B) : mul(B, o)), 60 * e * m * (norm(B) + 1), "product with Q"); }
    }
  });
}
// singular values by one-sided Jacobi
inline std::vector<double> jacobi(Mx a)
{
  if (a.r < a.c) a = tr(a, true);
  for (int sweep = 0; sweep < 60; ++sweep)
  {
    bool done = true;
    for (size_t p = 0; p < a.c; ++p) for (size_t q = p + 1; q < a.c; ++q)
    {
      long double al = 0, be = 0; cl ga = 0; for (size_t i = 0; i < a.r; ++i) al += std::norm(a(i, p)), be += std::norm(a(i, q)), ga += std::conj(a(i, p)) * a(i, q);
      long double s = std::abs(ga); if (s <= 1e-18L * std::sqrt(al * be) || s == 0) continue;
      done = false; cl ph = ga / s; long double z = (be - al) / (2 * s), t = (z >= 0 ? 1 : -1) / (std::abs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
      for (size_t i = 0; i < a.r; ++i) { cl x = a(i, p), y = a(i, q) / ph; a(i, p) = c * x - sn * y; a(i, q) = sn * x + c * y; }
    }
    if (done) break;
  }
  std::vector<double> r; for (size_t j = 0; j < a.c; ++j) { long double s = 0; for (size_t i = 0; i < a.r; ++i) s += std::norm(a(i, j)); r.push_back((double)std::sqrt(s)); }
  std::sort(r.rbegin(), r.rend()); return r;
}
template <class T, return_mechanism_type R> struct Svd;
template <class T> struct Svd<T, by_reference>
{
  typedef typename is_cplx<T>::real S;
  template <class F, class V> static Arr<S> dec(pbt::Gen &g, F &f, V const &m, size_t p) { Arr<S> r; with_vector<S, V_dense | V_subset | V_other>(g, p, [&](auto &o) { o.set(Arr<S>(p)); REQUIRE(g, f.decompose(m, o.view), "not decomposed"); r = read(o.view); o.holds(g, r, "singular values"); }); return r; }
  template <mat_op_type t, product_side_type s, class F, class V> static Mx u(pbt::Gen &g, F &f, V const &b, size_t r, size_t c) { return into<T>(g, r, c, [&](auto const &x) { return f.template produ<t, s>(b, x); }); }
  template <mat_op_type t, product_side_type s, class F, class V> static Mx v(pbt::Gen &g, F &f, V const &b, size_t r, size_t c) { return into<T>(g, r, c, [&](auto const &x) { return f.template prodv<t, s>(b, x); }); }
  template <class F> static Mx gu(pbt::Gen &g, F &f, size_t a, size_t b, size_t m) { return into<T>(g, m, b - a + 1, [&](auto const &x) { return f.u(a, b, x); }); }
  template <class F> static Mx gv(pbt::Gen &g, F &f, size_t a, size_t b, size_t m) { return into<T>(g, m, b - a + 1, [&](auto const &x) { return f.v(a, b, x); }); }
};
template <class T> struct Svd<T, by_value>
{
  typedef typename is_cplx<T>::real S;
  template <class F, class V> static Arr<S> dec(pbt::Gen &g, F &f, V const &m, size_t p) { Vector<S> r = f.decompose(m); REQUIRE(g, r.size() == p, r.size() << " singular values"); return read(r); }
  template <mat_op_type t, product_side_type s, class F, class V> static Mx u(pbt::Gen &g, F &f, V const &b, size_t r, size_t c) { return val<T>(g, f.template produ<t, s>(b), r, c); }
  template <mat_op_type t, product_side_type s, class F, class V> static Mx v(pbt::Gen &g, F &f, V const &b, size_t r, size_t c) { return val<T>(g, f.template prodv<t, s>(b), r, c); }
  template <class F> static Mx gu(pbt::Gen &g, F &f, size_t a, size_t b, size_t m) { return val<T>(g, f.u(a, b), m, b - a + 1); }
  template <class F> static Mx gv(pbt::Gen &g, F &f, size_t a, size_t b, size_t m) { return val<T>(g, f.v(a, b), m, b - a + 1); }
};
template <class T, return_mechanism_type R> void sv(pbt::Gen &g)
{
  typedef svd<T, R> F; typedef typename is_cplx<T>::real SR; size_t m = 1 + g.draw(g.flip() ? 5 : 12), n = 1 + g.draw(g.flip() ? 5 : 12); g.large({&m, &n}, 100, 40, 100); size_t p = std::min(m, n);
  storage_type us = g.pick({svd_uvfull, svd_uvpart, svd_uvnos}), vs = g.pick({svd_uvfull, svd_uvpart, svd_uvnos}); double e = eps<T>() * (m + n + 3); size_t uk = us == svd_uvfull ? m : p, vk = vs == svd_uvfull ? n : p;
  g.note() << m << 'x' << n << " U " << us << " V " << vs << ": "; g.label(m > n ? "tall" : m < n ? "wide" : "square"); g.label(us == svd_uvnos && vs == svd_uvnos ? "values only" : us == svd_uvfull || vs == svd_uvfull ? "a full factor" : "part");
  std::vector<double> sig;   // of the last decomposition checked
  struct X { static Mx id(size_t k) { return eye(k, k); } };
  history<F>(g, [&] { return new F(m, n, us, vs); }, [&](F &f, Mx &a) {
    Arr<T> v = g.flip() ? well<T>(g, m, n) : values<T>(g, m, n); if (g.flip(1, 4)) { // a matrix of low rank
      size_t r = g.draw(p); for (size_t i = r + 1; i < m; ++i) for (size_t j = 0; j < n; ++j) v.at(i, j) = v.at(i % (r + 1), j); g.label("low rank"); }
    a = mx(v); Arr<SR> s;
    with_matrix<T, MV>(g, m, n, [&](auto &o) { o.set(v); s = Svd<T, R>::dec(g, f, o.view, p); o.holds(g, v, "decompose: the matrix"); g.note() << o.kind << "; "; o.set(Arr<T>(m, n)); });
    std::vector<double> w = jacobi(a); double tol = 60 * e * (norm(a) + 1e-300);
    for (size_t i = 0; i < p; ++i) REQUIRE(g, s.v[i] >= 0 && (!i || s.v[i] <= s.v[i - 1]) && std::abs(s.v[i] - w[i]) <= tol, "singular value " << i << " is " << s.v[i] << ", not " << w[i]);
    return true;
  }, [&](F &f, Mx const &A) {
    REQUIRE(g, f.rows() == m && f.columns() == n && f.ustorage() == us && f.vstorage() == vs, "reports " << f.rows() << 'x' << f.columns());
    typedef Svd<T, R> Q; enum { H = adj<T>() }; Mx U, V; double tol = 80 * e * (norm(A) + 1e-300);
    if (us != svd_uvnos) { U = arg<T>(g, arr<T>(eye(uk, uk)), [&](auto b) { return Q::template u<mat_ntrans, mat_lside>(g, f, b, m, uk); }); small(g, sub(mul(tr(U, true), U), eye(uk, uk)), 60 * e * m, "U has orthonormal columns"); }
    if (vs != svd_uvnos) { V = arg<T>(g, arr<T>(eye(vk, vk)), [&](auto b) { return Q::template v<mat_ntrans, mat_lside>(g, f, b, n, vk); }); small(g, sub(mul(tr(V, true), V), eye(vk, vk)), 60 * e * n, "V has orthonormal columns"); }
    std::vector<double> w = jacobi(A); Mx S(p, p); for (size_t i = 0; i < p; ++i) S(i, i) = w[i];
    if (us != svd_uvnos && vs != svd_uvnos) small(g, sub(mul(head(U, m, p), mul(S, tr(head(V, n, p), true))), A), tol, "U S V^H is the matrix");
    else if (us != svd_uvnos) { Mx B = mul(tr(head(U, m, p), true), A); small(g, sub(mul(B, tr(B, true)), mul(S, S)), tol * (norm(A) + 1e-300), "U diagonalizes A A^H"); }
    else if (vs != svd_uvnos) { Mx B = mul(A, head(V, n, p)); small(g, sub(mul(tr(B, true), B), mul(S, S)), tol * (norm(A) + 1e-300), "V diagonalizes A^H A"); }
    for (int side = 0; side < 2; ++side)
    {
      if ((side ? vs : us) == svd_uvnos) continue;
      Mx const &q = side ? V : U; size_t rows = q.r, k = q.c;
      size_t lo = g.draw(k), hi = lo + g.draw(k - lo); Mx part = side ? Q::gv(g, f, lo, hi, n) : Q::gu(g, f, lo, hi, m), want(rows, hi - lo + 1); for (size_t i = 0; i < rows; ++i) for (size_t j = lo; j <= hi; ++j) want(i, j - lo) = q(i, j);
      small(g, sub(part, want), 20 * e * rows, side ? "columns of V" : "columns of U");
      bool t = g.flip(), l = g.flip(); size_t c = 1 + g.draw(4); Arr<T> b = l ? values<T>(g, t ? rows : k, c) : values<T>(g, c, t ? k : rows); size_t rr = l ? (t ? k : rows) : c, rc = l ? c : (t ? rows : k); Mx B = mx(b), o = t ? tr(q, true) : q, x;
      g.note() << (side ? "prodv " : "produ ") << (t ? "adjoint " : "") << (l ? "left " : "right ");
      x = arg<T>(g, b, [&](auto v) { return side
        ? t ? l ? Q::template v<(mat_op_type)H, mat_lside>(g, f, v, rr, rc) : Q::template v<(mat_op_type)H, mat_rside>(g, f, v, rr, rc) : l ? Q::template v<mat_ntrans, mat_lside>(g, f, v, rr, rc) : Q::template v<mat_ntrans, mat_rside>(g, f, v, rr, rc)
        : t ? l ? Q::template u<(mat_op_type)H, mat_lside>(g, f, v, rr, rc) : Q::template u<(mat_op_type)H, mat_rside>(g, f, v, rr, rc) : l ? Q::template u<mat_ntrans, mat_lside>(g, f, v, rr, rc) : Q::template u<mat_ntrans, mat_rside>(g, f, v, rr, rc); });
      small(g, sub(x, l ? mul(o, B) : mul(B, o)), 60 * e * rows * (norm(B) + 1e-300), side ? "product with V" : "product with U");
    }
  });
}

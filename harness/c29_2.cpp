// C29: linear algebra in several threads
#include "c29_thr.hpp"
namespace c29
{
template <class T> struct is_complex { static bool const value = false; };
template <class T> struct is_complex<complex<T>> { static bool const value = true; };
template <class T> Matrix<T> trans_of(Matrix<T> a) { Matrix<T> b(a.size(1), a.size(0)); b = trans(a); return b; }
template <class T> Matrix<complex<T>> trans_of(Matrix<complex<T>> a) { Matrix<complex<T>> b(a.size(1), a.size(0)); b = herm(a); return b; }
template <class T> Matrix<T> spd(Lcg &r, length_type n) { Matrix<T> a(n, n), s(n, n); fill(r, a); s = prod(a, trans_of(a)); for (index_type i = 0; i < n; ++i) s.put(i, i, s.get(i, i) + T(50)); return s; }
template <class T> void lu(Lcg &r, Res &o) { length_type n = r.len(1, 9), m = r.n(1, 4); lud<T, by_reference> s(n); Matrix<T> b(n, m), x(n, m); for (int k = 0; k < 2; ++k) { Matrix<T> a(spd<T>(r, n)); a.put(0, n - 1, T(7)); fill(r, b); o.push_back(s.decompose(a)); s.template solve<mat_ntrans>(b, x); keep(o, x); s.template solve<mat_trans>(b, x); keep(o, x); } }
template <class T> void chol(Lcg &r, Res &o) { length_type n = r.len(1, 9), m = r.n(1, 4); chold<T, by_reference> s(r.n(0, 1) ? upper : lower, n); Matrix<T> b(n, m), x(n, m); for (int k = 0; k < 2; ++k) { Matrix<T> a(spd<T>(r, n)); fill(r, b); o.push_back(s.decompose(a)); s.solve(b, x); keep(o, x); } }
template <class T> void qr(Lcg &r, Res &o) { length_type n = r.len(1, 6), m = n + r.n(0, 5), k = r.n(1, 3); Matrix<T> a(m, n), b(m, k), x(n, k), c(n, k); fill(r, a); for (index_type i = 0; i < n; ++i) a.put(i, i, T(30)); fill(r, b); fill(r, c); qrd<T, by_reference> s(m, n, qrd_saveq1); o.push_back(s.decompose(a)); s.lsqsol(b, x); keep(o, x); s.covsol(c, x); keep(o, x); }
template <class T> void sv(Lcg &r, Res &o) { length_type n = r.len(1, 6), m = r.len(1, 8), k = r.n(1, 3), p = std::min(m, n); Matrix<T> a(m, n), b(p, k), u(m, k), v(n, k); svd<T, by_reference> s(m, n, svd_uvpart, svd_uvpart); Vector<float> x(p); for (int q = 0; q < 2; ++q) { fill(r, a); fill(r, b); s.decompose(a, x); keep(o, x); s.template produ<mat_ntrans, mat_lside>(b, u); keep(o, u); Matrix<T> y(k, p), z(k, n); fill(r, y); s.template prodv<is_complex<T>::value ? mat_herm : mat_trans, mat_rside>(y, z); keep(o, z); } }
template <class T> void toep(Lcg &r, Res &o) { length_type n = r.len(1, 9); Vector<T> t(n), b(n), w(n), x(n); fill(r, t); t.put(0, T(100)); fill(r, b); toepsol(t, b, w, x); keep(o, x); }
template <class T> void sol(Lcg &r, Res &o) { length_type n = r.len(1, 5), m = n + r.n(0, 4), k = r.n(1, 3); Matrix<T> a(m, n), b(n, k), c(m, k), x(n, k); fill(r, a); for (index_type i = 0; i < n; ++i) a.put(i, i, T(30)); fill(r, b); fill(r, c); Matrix<T> a2(m, n); a2 = a; covsol(a, b, x); keep(o, x); llsqsol(a2, c, x); keep(o, x); }
template <class T> void prods(Lcg &r, Res &o) { length_type n = r.len(1, 12), k = r.n(1, 12), m = r.n(1, 12); Matrix<T> a(n, k), b(k, m), c(n, m); fill(r, a); fill(r, b); c = prod(a, b); keep(o, c); Matrix<T, Dense<2, T, col2_type>> d(k, m); d = b; c = prod(a, d); keep(o, c); Matrix<T> bt(m, k); bt = trans(b); c = prodt(a, bt); keep(o, c); Vector<T> v(k), w(n), u(m); fill(r, v); w = prod(a, v); keep(o, w); u = prod(v, b); keep(o, u); keep(o, T(dot(v, v))); c = outer(T(2), w, u); keep(o, c); gemp<mat_ntrans, mat_ntrans>(T(2), a, b, T(3), c); keep(o, c); Matrix<T> tt(m, k); tt = trans(b); keep(o, tt); }
Op const ops[] = {{"lud<float>", lu<float>}, {"lud<complex>", lu<C>}, {"lud<double>", lu<double>}, {"chold<float>", chol<float>}, {"chold<complex>", chol<C>}, {"qrd<float>", qr<float>}, {"qrd<complex<double>>", qr<Z>}, {"svd<float>", sv<float>}, {"svd<complex>", sv<C>}, {"toepsol", toep<float>}, {"toepsol<complex>", toep<C>}, {"covsol, llsqsol", sol<double>}, {"covsol, llsqsol<complex>", sol<C>}, {"products<float>", prods<float>}, {"products<complex>", prods<C>}, {"products<double>", prods<double>}};
PROP(algebra, 150, 6000) { law(g, ops, sizeof ops / sizeof *ops); }
}

// C29: assignments, elementwise functions, reductions, selection, generation in several threads
#include "c29_thr.hpp"
#include <ovxx/strided.hpp>
#include <ovxx/domain_utils.hpp>
namespace c29
{
template <class T> void expr(Lcg &r, Res &o) { length_type n = r.len(1, 90); Vector<T> a(n), b(n), c(n), d(n); fill(r, a); fill(r, b); fill(r, c); d = a * b + c; keep(o, d); d = ma(a, b, c) - T(3) * a; keep(o, d); d(Domain<1>(0, 2, (n + 1) / 2)) = a(Domain<1>(0, 1, (n + 1) / 2)); keep(o, d); d += am(a, b, c); keep(o, d); d = T(4); d *= a; keep(o, d); keep(o, T(sumval(d))); keep(o, T(meanval(c))); }
void math(Lcg &r, Res &o) { length_type n = r.len(1, 90); Vector<float> a(n), b(n), d(n); fill(r, a); fill(r, b); d = sin(a) * cos(b) + sqrt(mag(a)); keep(o, d); d = atan2(a, b + 20.f); keep(o, d); d = exp(0.1f * a); keep(o, d); Vector<C> z(n), w(n); fill(r, z); w = z * conj(z) + euler(a); keep(o, w); d = magsq(z) + arg(z + C(20)); keep(o, d); Index<1> i; keep(o, maxval(a, i)); keep(o, int(i[0])); keep(o, minmgval(a, i)); keep(o, int(i[0])); d = expoavg(0.25f, a, b); keep(o, d); Vector<bool> p(n); p = a > b; o.push_back(alltrue(p)); o.push_back(anytrue(p)); }
template <class T> void mats(Lcg &r, Res &o) { length_type n = r.len(1, 20), m = r.n(1, 20); Matrix<T> a(n, m), b(m, n); Matrix<T, Dense<2, T, col2_type>> c(n, m); fill(r, a); c = a; keep(o, c); b = a.transpose(); keep(o, b); b = trans(c); keep(o, b); a.row(n / 2) = c.row(0); a.col(m / 2) += c.col(0); keep(o, a); a(Domain<2>(Domain<1>(n - 1, -1, n), Domain<1>(m))) = c; keep(o, a); c = a + T(2) * c; keep(o, c); Vector<T> v(m); fill(r, v); a = vmmul<row>(v, c); keep(o, a); }
void tens(Lcg &r, Res &o) { length_type n = r.n(1, 6), m = r.n(1, 6), k = r.n(1, 6); Tensor<float> a(n, m, k); Tensor<float> d(n, m, k); for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < m; ++j) for (index_type l = 0; l < k; ++l) a.put(i, j, l, r.n(-9, 9)); d = a * a + 1.f; keep(o, sumval(d)); d(0, whole_domain, whole_domain) = a(n - 1, whole_domain, whole_domain); Matrix<float> x(m, k); x = d(0, whole_domain, whole_domain); keep(o, x); Index<3> i; keep(o, maxval(d, i)); o.push_back(i[0] * 100 + i[1] * 10 + i[2]); }
template <class T> void rnd(Lcg &r, Res &o) { length_type n = r.len(1, 90); bool port = r.n(0, 1); Rand<T> a(r.n(1, 9999), port), b(r.n(1, 9999), 3, 2, port); Vector<T> v(n); v = a.randu(n); keep(o, v); v = b.randn(n); keep(o, v); for (int i = 0; i < 5; ++i) keep(o, T(a.randn())), keep(o, T(b.randu())); }
void sel(Lcg &r, Res &o) { length_type n = r.len(1, 90); Vector<int> a(n), b(n); fill(r, a); Vector<bool> m(n); for (index_type i = 0; i < n; ++i) m.put(i, r.n(0, 1)); Vector<Index<1>> x(n); length_type k = indexbool(m, x); o.push_back(k); for (index_type i = 0; i < k; ++i) o.push_back(x.get(i)[0]); if (k) { Vector<int> g(k); g = gather(a, x(Domain<1>(k))); keep(o, g); Vector<Index<1>> y(k); for (index_type i = 0; i < k; ++i) y.put(i, x.get(i)); scatter(const_Vector<int>(g), const_Vector<Index<1>>(y), b); for (index_type i = 0; i < k; ++i) o.push_back(b.get(x.get(i)[0])); } b = clip(a, -3, 3, -4, 4); keep(o, b); o.push_back(first(r.n(0, 1), [](int p, int q) { return p < q; }, a, b)); Vector<float> f(n); f = ramp(0.5f, 2.f, n); keep(o, f); vsip::swap(b, a); keep(o, b); }
void lay(Lcg &r, Res &o) { typedef Layout<2, tuple<1, 0, 2>, aligned_64, array> L; length_type n = r.len(1, 12), m = r.n(1, 12); Matrix<C> a(n, m), b(n, m); fill(r, a); { dda::Data<Matrix<C>::block_type, dda::in, L> d(a.block()); C const *p = d.ptr(); for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < m; ++j) keep(o, C(p[i * d.stride(0) + j * d.stride(1)])); } { dda::Data<Matrix<C>::block_type, dda::out, L> d(b.block()); for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < m; ++j) d.ptr()[i * d.stride(0) + j * d.stride(1)] = C(i, j); } keep(o, b); std::vector<float> u(2 * n * m); for (auto &x : u) x = r.n(-9, 9); Dense<2, C> blk(Domain<2>(n, m), u.data()); blk.admit(true); Matrix<C, Dense<2, C>> v(blk); v *= C(0, 1); keep(o, v); blk.release(true); for (float x : u) o.push_back(x); }
Op const ops[] = {{"expressions<float>", expr<float>}, {"expressions<complex>", expr<C>}, {"expressions<int>", expr<int>}, {"functions", math}, {"matrices<double>", mats<double>}, {"matrices<complex>", mats<C>}, {"tensors", tens}, {"Rand<float>", rnd<float>}, {"Rand<double>", rnd<double>}, {"Rand<complex>", rnd<C>}, {"selection", sel}, {"layouts and user data", lay}};
PROP(elementwise, 150, 6000) { law(g, ops, sizeof ops / sizeof *ops); }
}

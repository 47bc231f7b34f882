// signal processing and matrix products on distributed views agree with the same on local views
#include "c25_par.hpp"
#include <vsip/signal.hpp>
#include <vsip/math.hpp>
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
typedef complex<float> cf; typedef complex<double> cd; typedef Map<B, B, W> BB; typedef Map<W, B, W> WB; typedef Map<B, W, W> BW; typedef Map<C, C, W> CC; typedef Replicated_map<2> R2;
template <class M, class T> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T, class O = row2_type> using P2 = Plain<2, T, DB<2, T, M, O>>; template <class M, class T> using S1 = Part<1, T, DB<1, T, M>>;
template <class T> T small(long a, long, T *) { return T(a - 9); } template <class T> complex<T> small(long a, long b, complex<T> *) { return complex<T>(a - 9, b - 9); }
// a side with drawn small data, and its local equal
template <class Sd> void draw(pbt::Gen &g, Sd &s) { typedef typename Sd::value_type T; unsigned long h = g.draw(1u << 20); for (size_t i = 0; i < s.w.total; ++i) { h = h * 6364136223846793005ul + 1442695040888963407ul; s.w.ref[i] = small((h >> 33) % 19, (h >> 41) % 19, (T *)0); } s.w.each([&](Ix<Sd::dim> y, size_t i) { pput(s.w.v.local(), y, T(s.w.ref[i])); return true; }); }

template <int D, class T> struct loc; template <class T> struct loc<1, T> { typedef Vector<T> V; static V make(size_t const *m) { return V(m[0]); } }; template <class T> struct loc<2, T> { typedef Matrix<T> V; static V make(size_t const *m) { return V(m[0], m[1]); } };
template <class Sd> typename loc<Sd::dim, typename Sd::value_type>::V local(Sd &s, size_t const *m) { int const D = Sd::dim; auto v = loc<D, typename Sd::value_type>::make(m); size_t n = m[0] * m[1] * m[2]; for (size_t i = 0; i < n; ++i) { Ix<D> x = unlinear<D>(i, m); pput(v, x, acc<Sd>::get(s, s.pos(x))); } return v; }
// the destination and an operand, computed distributed and local
template <class SL, class SA, class F> void agree(pbt::Gen &g, size_t const *ml, size_t const *ma, double tol, F f)
{
  int const D = SL::dim; typedef typename SL::value_type T; size_t n = ml[0] * ml[1] * ml[2]; SL l(g, ml); SA a(g, ma); draw(g, l); draw(g, a); auto ll = local(l, ml); auto la = local(a, ma); f(l.view(), a.view()); f(ll, la);
  double big = 1; for (size_t i = 0; i < n; ++i) big = std::max(big, (double)std::abs(T(pget(ll, unlinear<D>(i, ml))))); std::vector<long> at(l.w.total, -1); for (size_t i = 0; i < n; ++i) at[l.pos(unlinear<D>(i, ml))] = i;
  auto w = l.w.v.local(); l.w.each([&](Ix<decltype(l.w)::dim> y, size_t i) { T q = pget(w, y), r = at[i] < 0 ? T(l.w.ref[i]) : T(pget(ll, unlinear<D>(at[i], ml))); bool ok = std::abs(q - r) <= tol * big; REQUIRE(g, ok, "element " << i << (at[i] < 0 ? " outside the destination" : "") << " is " << q << ", not " << r << " on process " << local_processor()); return ok; });
  a.w.check(g, "operand"); if (num_processors() > 1 && n > 1) g.nontrivial();
}
inline void len(pbt::Gen &g, size_t *m, size_t lo, size_t hi) { m[0] = g.range(lo, hi); m[1] = m[2] = 1; g.note() << m[0] << ": "; }
template <class SL, class SA, support_region_type R> void conv(pbt::Gen &g)
{
  typedef typename SL::value_type T; size_t k = g.range(1, 6), n = g.range(k, 40), d = g.range(1, 3), o = R == support_full ? (n + k - 2) / d + 1 : R == support_same ? (n - 1) / d + 1 : (n - k) / d + 1; size_t mi[3] = {n, 1, 1}, mo[3] = {o, 1, 1}; g.note() << n << " by " << k << " decimated " << d << ": "; Vector<T> c(k); for (size_t i = 0; i < k; ++i) c.put(i, T(g.range(-3, 3)));
  agree<SL, SA>(g, mo, mi, 1e-5, [&](auto l, auto a) { Convolution<const_Vector, nonsym, R, T> f(c, Domain<1>(n), d); f(a, l); });
}
PROP(convolution_full, 60, 2000) { conv<P1<MB, float>, P1<MB, float>, support_full>(g); }
PROP(convolution_same, 60, 2000) { conv<P1<MC, double>, S1<MB, double>, support_same>(g); }
PROP(fir, 60, 2000) { size_t m[3]; len(g, m, 4, 40); size_t k = g.range(2, 6); k = std::min(k, m[0]); Vector<float> c(k); for (size_t i = 0; i < k; ++i) c.put(i, g.range(-3, 3)); agree<P1<MB, float>, P1<MC, float>>(g, m, m, 1e-5, [&](auto l, auto a) { Fir<float, nonsym, state_save> f(c, m[0]); f(a, l); f(a, l); }); }
PROP(iir, 60, 2000) { size_t m[3]; len(g, m, 4, 40); Matrix<float> b(1, 3, 1.f), a2(1, 2, 0.25f); b.put(0, 1, g.range(-3, 3)); agree<P1<MB, float>, P1<MB, float>>(g, m, m, 1e-5, [&](auto l, auto a) { Iir<float> f(b, a2, m[0]); f(a, l); }); }
PROP(correlation, 60, 2000) { size_t k = g.range(1, 6), n = g.range(k, 30); size_t mk[3] = {k, 1, 1}, mo[3] = {n + k - 1, 1, 1}; g.note() << n << " with " << k << ": "; Vector<float> x(n); for (size_t i = 0; i < n; ++i) x.put(i, float(i * 7 % 11) - 5); bias_type bs = g.flip() ? biased : unbiased; agree<P1<MB, float>, P1<MC, float>>(g, mo, mk, 1e-4, [&](auto l, auto a) { Correlation<const_Vector, support_full, float> f{Domain<1>(k), Domain<1>(n)}; f(bs, a, x, l); }); }
PROP(cumsum_vector, 60, 2000) { size_t m[3]; len(g, m, 1, 20); agree<P1<MB, double>, P1<MC, double>>(g, m, m, 1e-12, [&](auto l, auto a) { cumsum<0>(a, l); }); }
PROP(functions_block, 60, 2000) { size_t m[3]; len(g, m, 1, 40); int k = g.draw(4); g.note() << "function " << k << "; "; agree<P1<MB, double>, P1<MC, double>>(g, m, m, 1e-12, [&](auto l, auto a) { if (k == 0) l = sin(a) + l; else if (k == 1) l = exp(a * 0.1); else if (k == 2) l = clip(a, -3., 4., -3.5, 4.5); else l = sqrt(mag(a)) - floor(l); }); }
template <class SL, class SA> void trn(pbt::Gen &g) { size_t m[3] = {1, 1, 1}; m[0] = g.range(1, 12); m[1] = g.range(1, 12); size_t t[3] = {m[1], m[0], 1}; agree<SL, SA>(g, m, t, 0, [&](auto l, auto a) { l = herm(a); }); }
PROP(herm_matrix, 60, 2000) { trn<P2<BB, cf>, P2<BB, cf>>(g); }
PROP(herm_corner, 60, 2000) { trn<P2<WB, cf>, P2<BW, cf, col2_type>>(g); }
PROP(histogram, 40, 1500) { size_t m[3]; len(g, m, 1, 30); P1<MC, float> a(g, m); draw(g, a); auto la = local(a, m); Histogram<const_Vector, float> h(-5, 6, 7), k(-5, 6, 7); Vector<scalar_i> x(7), y(7); x = h(a.view()); y = k(la); for (int i = 0; i < 7; ++i) REQUIRE(g, x.get(i) == y.get(i), "bin " << i << " holds " << x.get(i) << ", not " << y.get(i)); if (num_processors() > 1 && m[0] > 1) g.nontrivial(); }
PROP(dot_product, 40, 1500) { size_t m[3]; len(g, m, 1, 30); P1<MC, cf> a(g, m); P1<MB, cf> b(g, m); draw(g, a); draw(g, b); cf x = dot(a.view(), b.view()), y = dot(local(a, m), local(b, m)); REQUIRE(g, std::abs(x - y) < 1e-3, "dot product " << x << " is not " << y); if (num_processors() > 1 && m[0] > 1) g.nontrivial(); }
PROP(indexbool_vector, 40, 1500) { size_t m[3]; len(g, m, 1, 30); P1<MB, bool> a(g, m); a.w.fill(g.draw(90)); Vector<Index<1>> x(m[0]), y(m[0]); size_t k = indexbool(a.view(), x), n = indexbool(local(a, m), y); REQUIRE(g, k == n, "indexbool counts " << k << ", not " << n); for (size_t i = 0; i < std::min(k, n); ++i) REQUIRE(g, x.get(i)[0] == y.get(i)[0], "index " << i); if (num_processors() > 1 && m[0] > 1) g.nontrivial(); }
// a user function object that carries values
struct Affine { typedef double result_type, argument_type, first_argument_type, second_argument_type, third_argument_type; double a, b; double operator()(double x) const { return a * x + b; } double operator()(double x, double y) const { return a * x + b * y; } double operator()(double x, double y, double z) const { return a * x + b * y - z; } };
template <class SL, class SA> void carried(pbt::Gen &g) { size_t m[3] = {1, 1, 1}; for (int d = 0; d < SL::dim; ++d) m[d] = g.range(1, SL::dim == 1 ? 40 : 9); int k = g.draw(6); double lo = g.range(-6, 0), hi = lo + g.range(1, 8), c = g.range(-3, 3); static char const *const n[6] = {"clip", "invclip", "unary", "binary", "ternary", "clip within +"}; g.label(n[k]); Affine f = {c, hi};
  agree<SL, SA>(g, m, m, 1e-12, [&](auto l, auto a) { if (k == 0) l = clip(a, lo, hi, lo - 1, hi + 1); else if (k == 1) l = invclip(a, lo, (lo + hi) / 2, hi, lo - .5, hi + .5); else if (k == 2) l = unary<double>(f, a); else if (k == 3) l = binary<double>(f, a, l); else if (k == 4) l = ternary<double>(f, a, l, a); else l = l + clip(l + a, lo, hi, lo - 1, hi + 1); }); }
PROP(carried_same, 80, 4000) { carried<P1<MB, double>, P1<MB, double>>(g); }
PROP(carried_cyclic, 80, 4000) { carried<P1<MC, double>, P1<MB, double>>(g); }
PROP(carried_replicated, 80, 4000) { carried<P1<MR, double>, P1<MC, double>>(g); }
PROP(carried_matrix, 80, 4000) { carried<P2<BB, double>, P2<CC, double, col2_type>>(g); }
// Fourier transforms of the rows or columns each process holds
template <int Axis, class M, class T, class O, int Kinds = 6> void fftms(pbt::Gen &g)
{
  size_t m[3] = {1, 1, 1}; m[0] = g.range(1, 12); m[1] = g.range(1, 12); int k = g.draw(Kinds); double s = g.flip() ? 1 : 0.5; static char const *const n[3] = {"in place", "to another", "by value"}; g.label(n[k / 2]); typedef typename T::value_type R;
  typedef P2<M, T, O> S; agree<S, S>(g, m, m, sizeof(R) == 4 ? 1e-5 : 1e-12, [&](auto l, auto) {
    typedef Fftm<T, T, Axis, fft_fwd, by_reference, 1> F; typedef Fftm<T, T, Axis, fft_inv, by_reference, 1> I; typedef Fftm<T, T, Axis, fft_fwd, by_value, 1> V; Domain<2> d(m[0], m[1]); 
    if (k == 0) { F f(d, s); f(l); } else if (k == 1) { I f(d, s); f(l); } else if (k < 4) { typename std::remove_reference<decltype(l)>::type t(m[0], m[1], l.block().map()); t = l; if (k == 2) { F f(d, s); f(t, l); } else { I f(d, s); f(t, l); } } else { V f(d, s); if (k == 4) l = f(l); else { typename std::remove_reference<decltype(l)>::type t(m[0], m[1], l.block().map()); t = f(l); l = t; } } });
}
PROP(fftm_rows, 80, 3000) { fftms<row, BW, cf, row2_type>(g); }
PROP(fftm_columns, 80, 3000) { fftms<col, WB, cf, row2_type>(g); }
PROP(fftm_rows_strided, 80, 3000) { fftms<row, Map<C, W, W>, cd, col2_type, 2>(g); }
PROP(fftm_columns_cyclic, 80, 3000) { fftms<col, Map<W, C, W>, cd, col2_type, 2>(g); }
PROP(fftm_replicated, 60, 3000) { fftms<row, R2, cf, row2_type, 4>(g); }

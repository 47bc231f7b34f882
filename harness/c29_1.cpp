// C29: transforms and filters in several threads
#include "c29_thr.hpp"
namespace c29
{
template <class T> void cfft(Lcg &r, Res &o) { typedef complex<T> X; length_type n = r.len(1, 70); Vector<X> a(n), b(n), c(n); Fft<const_Vector, X, X, fft_fwd, by_reference, 1> f(Domain<1>(n), 1.f); Fft<const_Vector, X, X, fft_inv, by_reference, 1> i(Domain<1>(n), 1.f / n); for (int k = 0; k < 2; ++k) { fill(r, a); f(a, b); keep(o, b); i(b, c); keep(o, c); i(b); keep(o, b); } }
void fftval(Lcg &r, Res &o) { length_type n = r.len(1, 70); Vector<C> a(n); Fft<const_Vector, C, C, fft_fwd, by_value, 1> f(Domain<1>(n), 2.f); for (int k = 0; k < 2; ++k) { fill(r, a); Vector<C> b(n); b = f(a); keep(o, b); } }
template <class T> void rfft(Lcg &r, Res &o) { typedef complex<T> X; length_type n = 2 * r.len(1, 40); Vector<T> a(n), c(n); Vector<X> b(n / 2 + 1); Fft<const_Vector, T, X, 0, by_reference, 1> f(Domain<1>(n), 1.f); Fft<const_Vector, X, T, 0, by_reference, 1> i(Domain<1>(n), 1.f / n); for (int k = 0; k < 2; ++k) { fill(r, a); f(a, b); keep(o, b); i(b, c); keep(o, c); } }
void fft2(Lcg &r, Res &o) { length_type n = r.len(1, 12), m = r.n(1, 12); Matrix<C> a(n, m), b(n, m); fill(r, a); Fft<const_Matrix, C, C, fft_fwd, by_reference, 1> f(Domain<2>(n, m), 1.f); f(a, b); keep(o, b); }
void multi(Lcg &r, Res &o) { length_type n = r.len(1, 12), m = r.n(1, 20); Matrix<C> a(n, m), b(n, m); fill(r, a); Fftm<C, C, row, fft_fwd, by_reference, 1> f(Domain<2>(n, m), 1.f); f(a, b); keep(o, b); Fftm<C, C, col, fft_inv, by_reference, 1> i(Domain<2>(n, m), 1.f); i(a, b); keep(o, b); }
template <class T> void conv(Lcg &r, Res &o) { length_type k = r.n(1, 8), n = r.len(8, 60), d = r.n(1, 3); Vector<T> c(k), a(n); fill(r, c); typedef Convolution<const_Vector, nonsym, support_same, T> F; F f(c, Domain<1>(n), d); Vector<T> b(f.output_size()[0].size()); for (int i = 0; i < 2; ++i) { fill(r, a); f(a, b); keep(o, b); } }
void conv2(Lcg &r, Res &o) { length_type k = r.n(1, 4), l = r.n(1, 4), n = r.len(4, 12), m = r.n(4, 12); Matrix<float> c(k, l), a(n, m); fill(r, c); fill(r, a); Convolution<const_Matrix, nonsym, support_min, float> f(c, Domain<2>(n, m), 1); Matrix<float> b(f.output_size()[0].size(), f.output_size()[1].size()); f(a, b); keep(o, b); }
template <class T> void corr(Lcg &r, Res &o) { length_type k = r.n(1, 8), n = r.len(8, 60); Vector<T> c(k), a(n); Correlation<const_Vector, support_full, T> f((Domain<1>(k)), Domain<1>(n)); Vector<T> b(f.output_size()[0].size()); for (int i = 0; i < 2; ++i) { fill(r, c); fill(r, a); f(i ? biased : unbiased, c, a, b); keep(o, b); } }
template <class T> void fir(Lcg &r, Res &o) { length_type k = r.n(4, 9), n = r.len(10, 60), d = r.n(1, 3); Vector<T> c(k), a(n); fill(r, c); Fir<T, nonsym, state_save> f(c, n, d); for (int i = 0; i < 3; ++i) { Vector<T> b((n + d - 1) / d, T(0)); fill(r, a); length_type m = f(a, b); o.push_back(m); for (index_type j = 0; j < m; ++j) keep(o, T(b.get(j))); Fir<T, nonsym, state_save> copy(f); length_type l = copy(a, b); for (index_type j = 0; j < l; ++j) keep(o, T(b.get(j))); } }
void iir(Lcg &r, Res &o) { length_type k = r.n(1, 3), n = r.len(1, 40); Matrix<double> b(k, 3), a(k, 2); fill(r, b); fill(r, a); a *= 0.03; b *= 0.1; Iir<double> f(b, a, n); Vector<double> x(n), y(n); for (int i = 0; i < 3; ++i) { fill(r, x); f(x, y); keep(o, y); } }
void hist(Lcg &r, Res &o) { length_type n = r.len(1, 60); Vector<float> a(n); Histogram<const_Vector, float> h(-8.f, 8.f, r.n(3, 9)); for (int i = 0; i < 2; ++i) { fill(r, a); Vector<scalar_i> b = h(a); for (index_type j = 0; j < b.size(); ++j) o.push_back(b.get(j)); } }
void wind(Lcg &r, Res &o) { length_type n = r.len(3, 30); Vector<scalar_f> a(n); a = hanning(n); keep(o, a); a = blackman(n); keep(o, a); a = kaiser(n, 3.f); keep(o, a); a = cheby(n, 50.f); keep(o, a); }
void swap(Lcg &r, Res &o) { length_type n = r.len(1, 30), m = r.n(1, 9); Vector<C> a(n), b(n); fill(r, a); b = freqswap(a); keep(o, b); a = freqswap(a); keep(o, a); Matrix<float> x(n, m), y(n, m); fill(r, x); y = freqswap(x); keep(o, y); }
Op const ops[] = {{"Fft<complex<float>>", cfft<float>}, {"Fft<complex<double>>", cfft<double>}, {"Fft by value", fftval}, {"Fft<float>", rfft<float>}, {"Fft<double>", rfft<double>}, {"2-D Fft", fft2}, {"Fftm", multi}, {"Convolution<float>", conv<float>}, {"Convolution<complex>", conv<C>}, {"2-D Convolution", conv2}, {"Correlation<double>", corr<double>}, {"Correlation<complex>", corr<C>}, {"Fir<float>", fir<float>}, {"Fir<complex>", fir<C>}, {"Iir", iir}, {"Histogram", hist}, {"window functions", wind}, {"freqswap", swap}};
PROP(signal, 150, 6000) { law(g, ops, sizeof ops / sizeof *ops); }
}

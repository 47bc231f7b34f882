// C29: FFTW's planner, which is not thread-safe, is never entered by two threads at once. The planner's entry points are intercepted, counted and forwarded.
#include "c29_thr.hpp"
#include <dlfcn.h>
#include <unistd.h>
#include <fftw3.h>
namespace c29
{
std::atomic<int> inside(0), overlaps(0), entries(0);
struct Enter { Enter() { ++entries; if (inside++) ++overlaps; usleep(30); } ~Enter() { --inside; } };
template <class F> F real_one(char const *name) { return (F)dlsym(RTLD_NEXT, name); }
}
#define INTERCEPT(R, NAME, ARGS, CALL) extern "C" R NAME ARGS { typedef R (*F) ARGS; static F real_f = c29::real_one<F>(#NAME); c29::Enter e_; return real_f CALL; }
#define ALL(P, T) \
INTERCEPT(P##_plan, P##_plan_guru_dft, (int r, P##_iodim const *d, int hr, P##_iodim const *hd, P##_complex *i, P##_complex *o, int s, unsigned f), (r, d, hr, hd, i, o, s, f)) \
INTERCEPT(P##_plan, P##_plan_guru_split_dft, (int r, P##_iodim const *d, int hr, P##_iodim const *hd, T *ri, T *ii, T *ro, T *io, unsigned f), (r, d, hr, hd, ri, ii, ro, io, f)) \
INTERCEPT(P##_plan, P##_plan_guru_dft_r2c, (int r, P##_iodim const *d, int hr, P##_iodim const *hd, T *i, P##_complex *o, unsigned f), (r, d, hr, hd, i, o, f)) \
INTERCEPT(P##_plan, P##_plan_guru_dft_c2r, (int r, P##_iodim const *d, int hr, P##_iodim const *hd, P##_complex *i, T *o, unsigned f), (r, d, hr, hd, i, o, f)) \
INTERCEPT(P##_plan, P##_plan_guru_split_dft_r2c, (int r, P##_iodim const *d, int hr, P##_iodim const *hd, T *i, T *ro, T *io, unsigned f), (r, d, hr, hd, i, ro, io, f)) \
INTERCEPT(P##_plan, P##_plan_guru_split_dft_c2r, (int r, P##_iodim const *d, int hr, P##_iodim const *hd, T *ri, T *ii, T *o, unsigned f), (r, d, hr, hd, ri, ii, o, f)) \
INTERCEPT(P##_plan, P##_plan_many_dft, (int r, int const *n, int h, P##_complex *i, int const *in, int is, int id, P##_complex *o, int const *on, int os, int od, int s, unsigned f), (r, n, h, i, in, is, id, o, on, os, od, s, f)) \
INTERCEPT(P##_plan, P##_plan_many_dft_r2c, (int r, int const *n, int h, T *i, int const *in, int is, int id, P##_complex *o, int const *on, int os, int od, unsigned f), (r, n, h, i, in, is, id, o, on, os, od, f)) \
INTERCEPT(P##_plan, P##_plan_many_dft_c2r, (int r, int const *n, int h, P##_complex *i, int const *in, int is, int id, T *o, int const *on, int os, int od, unsigned f), (r, n, h, i, in, is, id, o, on, os, od, f)) \
INTERCEPT(void, P##_destroy_plan, (P##_plan p), (p))
ALL(fftw, double)
ALL(fftwf, float)
namespace c29
{
template <class T, int K> void make(Lcg &r, Res &o)
{
  typedef complex<T> X; length_type n = 2 * r.n(1, 9), m = 2 * r.n(1, 4);
  if (K == 0) { Vector<X> a(n), b(n); fill(r, a); Fft<const_Vector, X, X, fft_fwd, by_reference, 1> f(Domain<1>(n), 1.f); f(a, b); keep(o, b); }
  else if (K == 1) { Vector<T> a(n); Vector<X> b(n / 2 + 1); fill(r, a); Fft<const_Vector, T, X, 0, by_reference, 1> f(Domain<1>(n), 1.f); f(a, b); keep(o, b); }
  else if (K == 2) { Vector<X> a(n / 2 + 1); Vector<T> b(n); fill(r, a); Fft<const_Vector, X, T, 0, by_reference, 1> f(Domain<1>(n), 1.f); f(a, b); keep(o, b); }
  else if (K == 3) { Matrix<X> a(n, m), b(n, m); fill(r, a); Fft<const_Matrix, X, X, fft_inv, by_reference, 1> f(Domain<2>(n, m), 1.f); f(a, b); keep(o, b); }
  else if (K == 4) { Matrix<T> a(n, m); Matrix<X> b(n, m / 2 + 1); fill(r, a); Fftm<T, X, row, fft_fwd, by_reference, 1> f(Domain<2>(n, m), 1.f); f(a, b); keep(o, b); }
  else { Matrix<X> a(n, m), b(n, m); fill(r, a); Fftm<X, X, col, fft_fwd, by_reference, 1> f(Domain<2>(n, m), 1.f); f(a, b); keep(o, b); }
}
Op const ops[] = {{"Fft<complex<float>>", make<float, 0>}, {"Fft<float>", make<float, 1>}, {"Fft to float", make<float, 2>}, {"2-D Fft", make<float, 3>}, {"Fftm<float>", make<float, 4>}, {"Fftm<complex<float>>", make<float, 5>}, {"Fft<complex<double>>", make<double, 0>}, {"Fft<double>", make<double, 1>}, {"Fft to double", make<double, 2>}, {"2-D Fft<double>", make<double, 3>}, {"Fftm<double>", make<double, 4>}, {"Fftm<complex<double>>", make<double, 5>}};
PROP(planner, 60, 3000)
{
  int o = overlaps, e = entries; law(g, ops, sizeof ops / sizeof *ops); REQUIRE(g, entries > e, "FFTW's planner was not used"); REQUIRE(g, overlaps == o, overlaps - o << " of " << entries - e << " calls entered FFTW's planner while another thread was in it");
}
}

// C07, C08: FFT and multiple FFT
#include <vsip/signal.hpp>
#include <vsip/math.hpp>
#include "views.hpp"
#include <memory>
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd; typedef long double L; typedef std::complex<L> LC;

template <int D> struct with_;
template <> struct with_<1> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_vector<T, M>(g, n[0], f); } };
template <> struct with_<2> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_matrix<T, M>(g, n[0], n[1], f); } };
template <> struct with_<3> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_tensor<T, M>(g, n[0], n[1], n[2], f); } };
template <int D, class T> struct plain;
template <class T> struct plain<1, T> { typedef Vector<T> type; };
template <class T> struct plain<2, T> { typedef Matrix<T> type; };
template <class T> struct plain<3, T> { typedef Tensor<T> type; };
template <int D, class I, class O, int S, return_mechanism_type R, unsigned N> struct fft_type;
template <class I, class O, int S, return_mechanism_type R, unsigned N> struct fft_type<1, I, O, S, R, N> { typedef Fft<const_Vector, I, O, S, R, N> type; };
template <class I, class O, int S, return_mechanism_type R, unsigned N> struct fft_type<2, I, O, S, R, N> { typedef Fft<const_Matrix, I, O, S, R, N> type; };
template <class I, class O, int S, return_mechanism_type R, unsigned N> struct fft_type<3, I, O, S, R, N> { typedef Fft<const_Tensor, I, O, S, R, N> type; };

inline Domain<1> dom_(size_t const *n, std::integral_constant<int, 1>) { return Domain<1>(n[0]); }
inline Domain<2> dom_(size_t const *n, std::integral_constant<int, 2>) { return Domain<2>(n[0], n[1]); }
inline Domain<3> dom_(size_t const *n, std::integral_constant<int, 3>) { return Domain<3>(n[0], n[1], n[2]); }

// the definition, along one axis
inline Arr<LC> dft(Arr<LC> const &x, int axis, int sign)
{
  Arr<LC> r(x.n[0], x.n[1], x.n[2]); size_t N = x.n[axis];
  std::vector<LC> w(N); for (size_t i = 0; i < N; ++i) { L t = sign * 2 * M_PIl * i / N; w[i] = LC(std::cos(t), std::sin(t)); }
  for (size_t i = 0; i < x.n[0]; ++i) for (size_t j = 0; j < x.n[1]; ++j) for (size_t k = 0; k < x.n[2]; ++k)
  {
    size_t p[3] = {i, j, k}, f = p[axis]; LC s = 0;
    for (size_t t = 0; t < N; ++t) { p[axis] = t; s += x.at(p[0], p[1], p[2]) * w[f * t % N]; }
    r.at(i, j, k) = s;
  }
  return r;
}
inline Arr<LC> half(Arr<LC> const &x, int axis)
{
  size_t n[3] = {x.n[0], x.n[1], x.n[2]}; n[axis] = n[axis] / 2 + 1; Arr<LC> r(n[0], n[1], n[2]);
  for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k) r.at(i, j, k) = x.at(i, j, k);
  return r;
}
template <class T> Arr<LC> wide(Arr<T> const &a) { Arr<LC> r(a.n[0], a.n[1], a.n[2]); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = LC(a.v[i]); return r; }
template <class T> T to(LC x, T) { return T(x.real()); }
template <class T> std::complex<T> to(LC x, std::complex<T>) { return std::complex<T>(x.real(), x.imag()); }
template <class T> Arr<T> narrow(Arr<LC> const &a, L scale) { Arr<T> r(a.n[0], a.n[1], a.n[2]); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = to(a.v[i] * scale, T()); return r; }

// one input and what its transform must be. axes: all (Fft) or one (Fftm); half-spectrum along `axis`
template <class I, class O> struct Case
{
  Arr<I> in; Arr<O> out; L tol;
  Case(pbt::Gen &g, size_t const *n, int dim, int only, int axis, int sign, L scale)
  {
    typedef typename is_cplx<O>::real R0; typedef typename is_cplx<I>::real R1; typedef typename is_cplx<R0>::real R;
    uint64_t s = g.dataseed(); pbt::Data_kind k = g.pick({pbt::real_unit, pbt::signed_int, pbt::ramp});
    L norm = 0; size_t N = 1;
    auto all = [&](Arr<LC> x, int sg) { for (int d = 0; d < dim; ++d) if (only < 0 || d == only) x = dft(x, d, sg); return x; };
    for (int d = 0; d < dim; ++d) if (only < 0 || d == only) N *= n[d];
    if (!is_cplx<O>::value)       // complex to real: from the spectrum of a real array
    {
      Arr<O> x = data<O>(s, k, n[0], n[1], n[2]);
      in = narrow<I>(half(all(wide(x), -1), axis), 1);
      out = narrow<O>(wide(x), scale * N);
      for (auto v : x.v) norm += (L)std::norm(LC(v)); norm *= (L)N;
    }
    else
    {
      in = data<I>(s, k, n[0], n[1], n[2]);
      Arr<LC> w = all(wide(in), sign);
      if (!is_cplx<I>::value) w = half(w, axis);
      out = narrow<O>(w, scale);
      for (auto v : in.v) norm += std::norm(LC(v));
    }
    tol = 10 * std::numeric_limits<R>::epsilon() * (std::log2((L)N) + 4) * std::sqrt((L)N) * std::sqrt(norm) * std::abs(scale);
#ifdef PBT_DFT
    tol *= N;     // sums with angles of up to 2 pi N: these transforms do not reduce them
#endif
  }
};
template <> struct pv::is_cplx<L> { enum { value = 0 }; typedef L real; };

struct Close { L tol; template <class T> bool operator()(T a, T b) const { return std::abs(LC(a) - LC(b)) <= tol; } };
template <class T, class V> void result(pbt::Gen &g, V const &r, Arr<T> const &w, L tol, L by, char const *what)
{
  Arr<T> got = read(r);
  REQUIRE(g, got.n[0] == w.n[0] && got.n[1] == w.n[1] && got.n[2] == w.n[2], what << " has shape " << got.n[0] << 'x' << got.n[1] << 'x' << got.n[2]);
  for (size_t i = 0; i < w.v.size() && i < got.v.size(); ++i) REQUIRE(g, std::abs(LC(got.v[i]) - LC(w.v[i]) * by) <= tol * std::abs(by), what << ": element " << i << " is " << got.v[i] << ", not " << LC(w.v[i]) * by);
}
inline size_t fft_size(pbt::Gen &g, int dim) { static const size_t some[] = {1, 2, 3, 4, 5, 7, 8, 13, 16, 17, 31, 32, 33, 49, 64, 97, 100, 121, 128, 210}; return dim == 1 ? g.large(g.flip() ? some[g.draw(20)] : 1 + g.draw(150), 2100, 150) : dim == 2 ? (g.draw(4) ? 1 + g.draw(9) : 1 + g.draw(33)) : g.draw(5) ? 1 + g.draw(5) : 1 + g.draw(9); }
inline L scale_(pbt::Gen &g, size_t N) { switch (g.draw(5)) { case 0: return 1; case 1: return 1.L / N; case 2: return 0.5; case 3: return -2; default: return 0.25L * (1 + g.draw(9)); } }

template <int D, class T, class Obj, class O, class C> void inplace(pbt::Gen &g, Obj &f, C const &c, size_t const *n, std::true_type, O)
{
  constexpr int M = D == 1 ? V_dense | V_subset | V_other | V_col : D == 2 ? M_row | M_col | M_subset | M_other | M_aligned : T_012 | T_210 | T_subset | T_other;
  with_<D>::template go<T, M>(g, n, [&](auto &o) { o.set(c.in); g.note() << "in place: " << o.kind; f(o.view); o.holds(g, c.out, "in place", Close{c.tol}); });
}
template <int D, class T, class Obj, class O, class C> void inplace(pbt::Gen &, Obj &, C const &, size_t const *, std::false_type, O) {}

template <int D, class I, class O, class Obj, class Mk> void by_ref(pbt::Gen &g, Obj &f, Mk const &mk, size_t const *ni, size_t const *no)
{
  constexpr int M = D == 1 ? V_dense | V_subset | V_other | V_col : D == 2 ? M_row | M_col | M_subset | M_other | M_aligned | M_subtrans : T_012 | T_210 | T_102 | T_subset | T_other;
  auto c = mk();
  if (std::is_same<I, O>::value && g.flip(1, 3)) { inplace<D, I>(g, f, c, ni, std::is_same<I, O>(), O()); return; }
  with_<D>::template go<I, M>(g, ni, [&](auto &a) { with_<D>::template go<O, M>(g, no, [&](auto &o) {
    a.set(c.in); o.set(Arr<O>(c.out.n[0], c.out.n[1], c.out.n[2])); g.note() << a.kind << " to " << o.kind << "; ";
    auto r = f(a.view, o.view); o.holds(g, c.out, "by reference", Close{c.tol}); a.holds(g, c.in, "the input"); result(g, r, c.out, c.tol, 1, "the returned view");
  }); });
}
template <int D, class I, class O, class Obj, class Mk> void by_val(pbt::Gen &g, Obj &f, Mk const &mk, size_t const *ni, size_t const *no)
{
  constexpr int M = D == 1 ? V_dense | V_subset | V_other | V_col : D == 2 ? M_row | M_col | M_subset | M_other | M_aligned | M_subtrans : T_012 | T_210 | T_102 | T_subset | T_other;
  constexpr int MO = D == 1 ? V_dense | V_subset | V_other : D == 2 ? M_row | M_col | M_subset | M_other : T_012 | T_210 | T_subset | T_other;
  typedef typename is_cplx<O>::real R;
  auto c = mk();
  with_<D>::template go<I, M>(g, ni, [&](auto &a) {
    a.set(c.in); g.note() << a.kind;
    switch (g.draw(4))
    {
      case 0: case 1: with_<D>::template go<O, MO>(g, no, [&](auto &o) { o.set(Arr<O>(c.out.n[0], c.out.n[1], c.out.n[2])); g.note() << " to " << o.kind << "; "; o.view = f(a.view); o.holds(g, c.out, "by value", Close{c.tol}); }); break;
      case 2: { typename plain<D, O>::type r(f(a.view)); result(g, r, c.out, c.tol, 1, "by value, constructed"); break; }
      case 3: { typename plain<D, O>::type r(f(a.view) * O(2)); result(g, r, c.out, c.tol, 2, "by value, in an expression"); break; }
    }
    a.holds(g, c.in, "the input");
  });
}
template <int D, class I, class O, class F, class Mk> void fft_call(pbt::Gen &g, F &f, Mk const &mk, size_t const *ni, size_t const *no, std::integral_constant<return_mechanism_type, by_value>) { by_val<D, I, O>(g, f, mk, ni, no); }
template <int D, class I, class O, class F, class Mk> void fft_call(pbt::Gen &g, F &f, Mk const &mk, size_t const *ni, size_t const *no, std::integral_constant<return_mechanism_type, by_reference>) { by_ref<D, I, O>(g, f, mk, ni, no); }
// Fft: D dimensions, S the direction or the special axis
template <int D, class I, class O, int S, return_mechanism_type R, unsigned N = 1> void fft_law(pbt::Gen &g)
{
  constexpr bool cc = is_cplx<I>::value && is_cplx<O>::value;
  constexpr int axis = cc ? 0 : S, sign = cc ? (S == fft_fwd ? -1 : 1) : is_cplx<I>::value ? 1 : -1;
  size_t n[3] = {1, 1, 1}, ni[3], no[3]; for (int d = 0; d < D; ++d) n[d] = fft_size(g, D);
  for (int d = 0; d < 3; ++d) ni[d] = no[d] = n[d];
  if (!is_cplx<I>::value) no[axis] = n[axis] / 2 + 1; if (!is_cplx<O>::value) ni[axis] = n[axis] / 2 + 1;
  size_t N_ = n[0] * n[1] * n[2]; if (N_ > 1) g.nontrivial();
  typedef typename is_cplx<O>::real RT; RT scale = RT(scale_(g, N_)); g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << " scale " << scale << ": ";
  typedef typename fft_type<D, I, O, S, R, N>::type F; F f(dom_(n, std::integral_constant<int, D>()), scale);
  auto mk = [&] { return Case<I, O>(g, n, D, -1, axis, sign, scale); };
  REQUIRE(g, f.input_size() == dom_(ni, std::integral_constant<int, D>()) && f.output_size() == dom_(no, std::integral_constant<int, D>()) && f.scale() == scale, "the FFT's sizes or scale");
  for (int calls = 1 + g.draw(3); calls--;) fft_call<D, I, O>(g, f, mk, ni, no, std::integral_constant<return_mechanism_type, R>());
}

template <class I, class O, int A, int Dir, return_mechanism_type R, unsigned N = 1> void fftm_law(pbt::Gen &g)
{
  constexpr int axis = 1 - A; size_t n[3] = {1 + g.draw(g.draw(4) ? 8 : 24), 1 + g.draw(g.draw(4) ? 8 : 24), 1}, ni[3], no[3]; n[axis] = g.flip() ? fft_size(g, 2) : n[axis];
  for (int d = 0; d < 3; ++d) ni[d] = no[d] = n[d];
  if (!is_cplx<I>::value) no[axis] = n[axis] / 2 + 1; if (!is_cplx<O>::value) ni[axis] = n[axis] / 2 + 1;
  if (n[axis] > 1 && n[A] > 1) g.nontrivial();
  typedef typename is_cplx<O>::real RT; RT scale = RT(scale_(g, n[axis])); g.note() << n[0] << 'x' << n[1] << " scale " << scale << ": ";
  typedef Fftm<I, O, A, Dir, R, N> F; F f(Domain<2>(n[0], n[1]), scale);
  auto mk = [&] { return Case<I, O>(g, n, 2, axis, axis, Dir == fft_fwd ? -1 : 1, scale); };
  REQUIRE(g, f.input_size() == Domain<2>(ni[0], ni[1]) && f.output_size() == Domain<2>(no[0], no[1]) && f.scale() == scale, "the FFTM's sizes or scale");
  for (int calls = 1 + g.draw(3); calls--;) fft_call<2, I, O>(g, f, mk, ni, no, std::integral_constant<return_mechanism_type, R>());
}

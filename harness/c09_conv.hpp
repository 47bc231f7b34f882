// C09 convolution, C10 correlation
#include <vsip/signal.hpp>
#include <vsip/math.hpp>
#include "views.hpp"
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <class T> T cj(T x) { return x; }
template <class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }
// support region: output size and offset of the first output, for a kernel of M and an input of N
inline size_t out_size(support_region_type R, size_t M, size_t N, size_t D) { size_t all = R == support_full ? N + M - 1 : R == support_same ? N : N - M + 1; return (all + D - 1) / D; }
inline size_t offset(support_region_type R, size_t M) { return R == support_full ? 0 : R == support_same ? M / 2 : M - 1; }
template <class T> Arr<T> unfold(Arr<T> const &c, symmetry_type S, int dim)
{
  if (S == nonsym) return c;
  auto len = [&](size_t m) { return S == sym_even_len_odd ? 2 * m - 1 : 2 * m; };
  size_t a = len(c.n[0]), b = dim == 2 ? len(c.n[1]) : 1; Arr<T> r(a, b);
  for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) r.at(i, j) = c.at(std::min(i, a - 1 - i), std::min(j, b - 1 - j));
  return r;
}
template <class T, symmetry_type S, support_region_type R> void conv1(pbt::Gen &g)
{
  size_t c = g.large(1 + g.draw(g.flip() ? 4 : 12), 140, 100), M = S == nonsym ? c : S == sym_even_len_odd ? 2 * c - 1 : 2 * c;
  size_t N = R == support_min || S == nonsym ? M + g.large(g.draw(30), 1100, 60) : (c + 1) / 2 + g.large(g.draw(40), 1100, 60), D = g.pick({1, 1, 2, 3, 4, 7});
  size_t P = out_size(R, M, N, D), off = offset(R, M); if (M > 1 && N > 1) g.nontrivial();
  g.note() << "coefficients " << c << " kernel " << M << " input " << N << " decimation " << D << ": "; g.label(R == support_full ? "full" : R == support_same ? "same" : "min");
  Arr<T> co = data<T>(g.dataseed(), pbt::signed_int, c), k = unfold(co, S, 1);
  with_vector<T, V_dense | V_subset>(g, c, [&](auto &oc) {
    oc.set(co); Convolution<const_Vector, S, R, T> f(oc.view, Domain<1>(N), D); oc.set(data<T>(1, pbt::ramp, c));   // the coefficients are copied
    REQUIRE(g, f.output_size()[0].size() == P && f.kernel_size()[0].size() == M && f.filter_order()[0].size() == M && f.input_size()[0].size() == N && f.decimation() == D && f.support() == R && f.symmetry() == S,
      "reports output " << f.output_size()[0].size() << " kernel " << f.kernel_size()[0].size() << ", not " << P << ' ' << M);
    for (int calls = 1 + g.draw(3); calls--;)
    {
      Arr<T> in = data<T>(g.dataseed(), pbt::signed_int, N), w(P);
      for (size_t n = 0; n < P; ++n) { T s = T(); for (size_t j = 0; j < M; ++j) if (n * D + off >= j && n * D + off - j < N) s += k.v[j] * in.v[n * D + off - j]; w.v[n] = s; }
      with_vector<T, V_dense | V_subset | V_other | V_col>(g, N, [&](auto &oi) { with_vector<T, V_dense | V_subset | V_other>(g, P, [&](auto &oo) {
        oi.set(in); oo.set(Arr<T>(P)); g.note() << oi.kind << " to " << oo.kind << "; "; f(oi.view, oo.view); oo.holds(g, w, "convolution"); oi.holds(g, in, "the input");
      }); });
    }
  });
}
template <class T, symmetry_type S, support_region_type R> void conv2(pbt::Gen &g)
{
  size_t c[2], M[2], N[2], P[2], off[2], D = g.pick({1, 1, 2, 3});
  for (int d = 0; d < 2; ++d) { c[d] = 1 + g.draw(3); M[d] = S == nonsym ? c[d] : S == sym_even_len_odd ? 2 * c[d] - 1 : 2 * c[d]; }
  for (int d = 0; d < 2; ++d) N[d] = R == support_min || g.flip(3, 4) ? M[d] + g.large(g.draw(8), 70, 60) : 1 + g.draw(8);
  if (c[0] * c[1] > N[0] * N[1]) N[0] += c[0] * c[1];
  for (int d = 0; d < 2; ++d) P[d] = out_size(R, M[d], N[d], D), off[d] = offset(R, M[d]);
  if (M[0] * M[1] > 1) g.nontrivial(); g.label(R == support_full ? "full" : R == support_same ? "same" : "min");
  g.note() << "coefficients " << c[0] << 'x' << c[1] << " input " << N[0] << 'x' << N[1] << " decimation " << D << ": ";
  Arr<T> co = data<T>(g.dataseed(), pbt::signed_int, c[0], c[1]), k = unfold(co, S, 2);
  with_matrix<T, M_row | M_col | M_subset>(g, c[0], c[1], [&](auto &oc) {
    oc.set(co); Convolution<const_Matrix, S, R, T> f(oc.view, Domain<2>(N[0], N[1]), D);
    REQUIRE(g, f.output_size() == Domain<2>(P[0], P[1]) && f.kernel_size() == Domain<2>(M[0], M[1]) && f.input_size() == Domain<2>(N[0], N[1]) && f.decimation() == D,
      "reports output " << f.output_size()[0].size() << 'x' << f.output_size()[1].size() << " kernel " << f.kernel_size()[0].size() << 'x' << f.kernel_size()[1].size());
    for (int calls = 1 + g.draw(2); calls--;)
    {
      Arr<T> in = data<T>(g.dataseed(), pbt::signed_int, N[0], N[1]), w(P[0], P[1]);
      for (size_t n = 0; n < P[0]; ++n) for (size_t m = 0; m < P[1]; ++m)
      {
        T s = T(); for (size_t i = 0; i < M[0]; ++i) for (size_t j = 0; j < M[1]; ++j) { size_t x = n * D + off[0] - i, y = m * D + off[1] - j; if (x < N[0] && y < N[1]) s += k.at(i, j) * in.at(x, y); }
        w.at(n, m) = s;
      }
      with_matrix<T, M_row | M_col | M_subset | M_other>(g, N[0], N[1], [&](auto &oi) { with_matrix<T, M_row | M_col | M_subset | M_other>(g, P[0], P[1], [&](auto &oo) {
        oi.set(in); oo.set(Arr<T>(P[0], P[1])); g.note() << oi.kind << " to " << oo.kind << "; "; f(oi.view, oo.view); oo.holds(g, w, "convolution"); oi.holds(g, in, "the input");
      }); });
    }
  });
}
// Correlation: out[n] = sum_k ref[k] conj(in[n + k - shift]), unbiased divided by the overlap
inline size_t shift_(support_region_type R, size_t M) { return R == support_full ? M - 1 : R == support_same ? M / 2 : 0; }
inline size_t overlap(support_region_type R, size_t M, size_t N, size_t n, bool one)
{
  size_t s = shift_(R, M), c = 0; for (size_t k = 0; k < M; ++k) c += n + k >= s && n + k - s < N;
  // one dimension, same support: C-VSIPL counts ceil(M/2) terms in the last output, also for even M (see ovxx/signal/corr.hpp)
  if (one && R == support_same && M % 2 == 0 && n >= N - M / 2) --c;
  return c;
}
template <class T> struct near_ { double tol; bool operator()(T a, T b) const { return std::abs(cd(a) - cd(b)) <= tol; } };
template <class T, support_region_type R> void corr1(pbt::Gen &g)
{
  size_t M = g.large(1 + g.draw(g.flip() ? 5 : 16), 140, 100), N = M + g.large(g.draw(30), 1100, 60), P = out_size(R, M, N, 1), s = shift_(R, M); if (M > 1) g.nontrivial();
  double eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon() * 4; g.note() << "reference " << M << " input " << N << ": "; g.label(R == support_full ? "full" : R == support_same ? "same" : "min");
  Correlation<const_Vector, R, T> f((Domain<1>(M)), Domain<1>(N));
  REQUIRE(g, f.output_size()[0].size() == P && f.reference_size()[0].size() == M && f.input_size()[0].size() == N && f.support() == R, "reports output " << f.output_size()[0].size() << ", not " << P);
  for (int calls = 1 + g.draw(3); calls--;)
  {
    bool un = g.flip(); Arr<T> ref = data<T>(g.dataseed(), pbt::signed_int, M), in = data<T>(g.dataseed(), pbt::signed_int, N), w(P);
    for (size_t n = 0; n < P; ++n) { T a = T(); for (size_t k = 0; k < M; ++k) { size_t x = n + k - s; if (x < N) a += ref.v[k] * cj(in.v[x]); } if (un) a /= T(overlap(R, M, N, n, true)); w.v[n] = a; }
    with_vector<T, V_dense | V_subset | V_other>(g, M, [&](auto &orf) { with_vector<T, V_dense | V_subset | V_other>(g, N, [&](auto &oi) { with_vector<T, V_dense | V_subset | V_other>(g, P, [&](auto &oo) {
      orf.set(ref); oi.set(in); oo.set(Arr<T>(P)); g.note() << (un ? "unbiased " : "biased ") << orf.kind << ", " << oi.kind << " to " << oo.kind << "; ";
      f(un ? unbiased : biased, orf.view, oi.view, oo.view); oo.holds(g, w, "correlation", near_<T>{un ? eps * 200 * M : 0}); oi.holds(g, in, "the input"); orf.holds(g, ref, "the reference");
    }); }); });
  }
}
template <class T, support_region_type R> void corr2(pbt::Gen &g)
{
  size_t M[2], N[2], P[2], s[2]; for (int d = 0; d < 2; ++d) { M[d] = 1 + g.draw(5); N[d] = M[d] + g.large(g.draw(7), 70, 60); P[d] = out_size(R, M[d], N[d], 1); s[d] = shift_(R, M[d]); }
  if (M[0] * M[1] > 1) g.nontrivial(); double eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon() * 4; g.label(R == support_full ? "full" : R == support_same ? "same" : "min");
  g.note() << "reference " << M[0] << 'x' << M[1] << " input " << N[0] << 'x' << N[1] << ": ";
  Correlation<const_Matrix, R, T> f(Domain<2>(M[0], M[1]), Domain<2>(N[0], N[1]));
  REQUIRE(g, f.output_size() == Domain<2>(P[0], P[1]) && f.reference_size() == Domain<2>(M[0], M[1]), "reports output " << f.output_size()[0].size() << 'x' << f.output_size()[1].size());
  for (int calls = 1 + g.draw(2); calls--;)
  {
    bool un = g.flip(); Arr<T> ref = data<T>(g.dataseed(), pbt::signed_int, M[0], M[1]), in = data<T>(g.dataseed(), pbt::signed_int, N[0], N[1]), w(P[0], P[1]);
    for (size_t n = 0; n < P[0]; ++n) for (size_t m = 0; m < P[1]; ++m)
    {
      T a = T(); for (size_t i = 0; i < M[0]; ++i) for (size_t j = 0; j < M[1]; ++j) { size_t x = n + i - s[0], y = m + j - s[1]; if (x < N[0] && y < N[1]) a += ref.at(i, j) * cj(in.at(x, y)); }
      if (un) a /= T(overlap(R, M[0], N[0], n, false) * overlap(R, M[1], N[1], m, false)); w.at(n, m) = a;
    }
    with_matrix<T, M_row | M_subset | M_other>(g, M[0], M[1], [&](auto &orf) { with_matrix<T, M_row | M_subset | M_other>(g, N[0], N[1], [&](auto &oi) { with_matrix<T, M_col | M_subset | M_other>(g, P[0], P[1], [&](auto &oo) {
      orf.set(ref); oi.set(in); oo.set(Arr<T>(P[0], P[1])); g.note() << (un ? "unbiased " : "biased ") << orf.kind << ", " << oi.kind << " to " << oo.kind << "; ";
      f(un ? unbiased : biased, orf.view, oi.view, oo.view); oo.holds(g, w, "correlation", near_<T>{un ? eps * 200 * M[0] * M[1] : 0}); oi.holds(g, in, "the input"); orf.holds(g, ref, "the reference");
    }); }); });
  }
}

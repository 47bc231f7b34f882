// C11 FIR and IIR filters: histories of filter, reset, copy and assignment over several filters
#include <vsip/signal.hpp>
#include <vsip/math.hpp>
#include <memory>
#include "views.hpp"
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <class T> struct near_ { double tol; bool operator()(T a, T b) const { return std::abs(cd(a) - cd(b)) <= tol; } };
template <class T> struct mk { static T from(std::complex<long double> v) { return T(v.real()); } };
template <class T> struct mk<std::complex<T>> { static std::complex<T> from(std::complex<long double> v) { return std::complex<T>((T)v.real(), (T)v.imag()); } };
template <class T> std::vector<T> unfold(Arr<T> const &c, symmetry_type S)
{
  std::vector<T> r = c.v; if (S == nonsym) return r;
  size_t m = c.v.size(); for (size_t i = S == sym_even_len_odd ? m - 1 : m; i--;) r.push_back(c.v[i]);
  return r;
}
template <class T, symmetry_type S, obj_state C> void fir(pbt::Gen &g)
{
  typedef Fir<T, S, C> F;
  struct Slot { std::unique_ptr<F> f; std::vector<T> past; int k; };
  size_t c = g.large(S == nonsym || S == sym_even_len_odd ? 2 + g.draw(7) : 1 + g.draw(5), 70, 100);
  Arr<T> co[2] = {data<T>(g.dataseed(), pbt::signed_int, c), data<T>(g.dataseed(), pbt::signed_int, c)};
  std::vector<T> h[2] = {unfold(co[0], S), unfold(co[1], S)};
  size_t M = h[0].size(), D = 1 + g.draw(g.flip() ? 1 : M - 1), N = M - 1 + g.large(g.draw(g.flip() ? 6 : 24), 600, 60), P = (N + D - 1) / D;
  g.note() << "coefficients " << c << " length " << M << " decimation " << D << " frame " << N << ": ";
  g.label(N % D ? "frame not a multiple of the decimation" : D > 1 ? "decimation" : "no decimation");
  std::vector<Slot> s; int steps = 0;
  auto make = [&](int k) {
    with_vector<T, V_dense | V_subset>(g, c, [&](auto &oc) {
      oc.set(co[k]); s.push_back(Slot{std::unique_ptr<F>(new F(oc.view, N, D)), {}, k}); oc.set(data<T>(7, pbt::ramp, c)); });
    g.note() << "new " << s.size() - 1 << "; ";
  };
  auto sizes = [&](F &f) { REQUIRE(g, f.kernel_size() == M && f.filter_order() == M && f.input_size() == N && f.output_size() == P && f.decimation() == D && f.continuous_filtering() == C && F::symmetry == S,
    "reports kernel " << f.kernel_size() << " order " << f.filter_order() << " input " << f.input_size() << " output " << f.output_size() << " decimation " << f.decimation()); };
  make(0); sizes(*s[0].f);
  for (int n = 2 + g.draw(9); n--;)
  {
    size_t i = g.draw(s.size()); int op = g.draw(8);
    if (op == 5) { s[i].f->reset(); s[i].past.clear(); g.note() << "reset " << i << "; "; }
    else if (op == 6)
    {
      if (s.size() < 4 && g.flip(3, 4)) { s.push_back(Slot{std::unique_ptr<F>(new F(*s[i].f)), s[i].past, s[i].k}); g.note() << "copy " << i << " to " << s.size() - 1 << "; "; sizes(*s.back().f); }
      else if (s.size() < 4) make(1);
    }
    else if (op == 7)
    {
      size_t j = g.draw(s.size()); *s[j].f = *s[i].f; if (j != i) { s[j].past = s[i].past; s[j].k = s[i].k; } g.note() << "assign " << i << " to " << j << "; "; sizes(*s[j].f);
      if (s.size() > 2 && g.flip() && i != j) { s[i].f.reset(); s.erase(s.begin() + i); g.note() << "destroy " << i << "; "; }
    }
    else
    {
      if (C == state_no_save) s[i].past.clear();
      std::vector<T> &p = s[i].past; size_t old = p.size(); if (old || C == state_no_save) ++steps;
      Arr<T> in = data<T>(g.dataseed(), pbt::signed_int, N); p.insert(p.end(), in.v.begin(), in.v.end());
      std::vector<T> w; for (size_t x = (old + D - 1) / D * D; x < p.size(); x += D) { T a = T(); for (size_t j = 0; j < M && j <= x; ++j) a += h[s[i].k][j] * p[x - j]; w.push_back(a); }
      with_vector<T, V_dense | V_subset | V_other | V_col>(g, N, [&](auto &oi) { with_vector<T, V_dense | V_subset | V_other>(g, P, [&](auto &oo) {
        oi.set(in); oo.set(Arr<T>(P)); g.note() << "filter " << i << ' ' << oi.kind << " to " << oo.kind << "; ";
        size_t m = (*s[i].f)(oi.view, oo.view); REQUIRE(g, m == w.size(), "returns " << m << " outputs, not " << w.size());
        Arr<T> e = read(oo.view); for (size_t x = 0; x < m; ++x) { REQUIRE(g, e.v[x] == w[x], "output " << x << " is " << pbt::show(e.v[x]) << ", not " << pbt::show(w[x])); }
        oo.holds(g, e, "the rest of the output's block"); oi.holds(g, in, "the input");
      }); });
    }
  }
  if (steps > 1) g.nontrivial();
}
template <class T, obj_state C> void iir(pbt::Gen &g)
{
  typedef Iir<T, C> F; typedef std::complex<long double> cl;
  struct Filter { std::vector<cl> b, a, w; };
  struct Slot { std::unique_ptr<F> f; Filter m; };
  size_t K = 1 + g.draw(4), N = 1 + g.draw(16); bool exact = g.flip(); double tol = 0; if (!exact) N = g.large(N, 600, 60);
  g.note() << K << " sections, frame " << N << (exact ? " integers" : "") << ": "; g.label(exact ? "integers" : "stable filters");
  std::vector<Slot> s; int steps = 0;
  auto make = [&] {
    Arr<T> b = data<T>(g.dataseed(), exact ? pbt::signed_int : pbt::real_unit, K, 3), a(K, 2); if (exact) for (auto &x : b.v) x = T((int)std::real(x) % 3);
    for (size_t k = 0; k < K; ++k)
    {
      if (exact) { int z = g.draw(4); if (z < 2) a.at(k, z) = T(g.flip() ? 1 : -1); }
      else { double r = g.draw(90) / 100., t = g.draw(64) * 0.1; a.at(k, 0) = T(-2 * r * std::cos(t)); a.at(k, 1) = T(r * r); }
    }
    Slot n; n.m.w.assign(2 * K, 0); for (auto &x : b.v) n.m.b.push_back(cl(std::real(x), std::imag(x))); for (auto &x : a.v) n.m.a.push_back(cl(std::real(x), std::imag(x)));
    with_matrix<T, M_row | M_col | M_subset>(g, K, 3, [&](auto &ob) { with_matrix<T, M_row | M_col | M_subset>(g, K, 2, [&](auto &oa) {
      ob.set(b); oa.set(a); n.f.reset(new F(ob.view, oa.view, N)); ob.set(Arr<T>(K, 3)); oa.set(Arr<T>(K, 2)); }); });
    s.push_back(std::move(n)); g.note() << "new " << s.size() - 1 << "; ";
  };
  auto sizes = [&](F &f) { REQUIRE(g, f.kernel_size() == 2 * K && f.filter_order() == 2 * K && f.input_size() == N && f.output_size() == N && F::continuous_filtering == C, "reports kernel " << f.kernel_size() << " order " << f.filter_order() << " input " << f.input_size()); };
  make(); sizes(*s[0].f);
  for (int n = 2 + g.draw(9); n--;)
  {
    size_t i = g.draw(s.size()); int op = g.draw(8);
    if (op == 5) { s[i].f->reset(); s[i].m.w.assign(2 * K, 0); g.note() << "reset " << i << "; "; }
    else if (op == 6)
    {
      if (s.size() < 4 && g.flip(3, 4)) { s.push_back(Slot{std::unique_ptr<F>(new F(*s[i].f)), s[i].m}); g.note() << "copy " << i << " to " << s.size() - 1 << "; "; sizes(*s.back().f); }
      else if (s.size() < 4) make();
    }
    else if (op == 7)
    {
      size_t j = g.draw(s.size()); *s[j].f = *s[i].f; s[j].m = Filter(s[i].m); g.note() << "assign " << i << " to " << j << "; "; sizes(*s[j].f);
      if (s.size() > 2 && g.flip() && i != j) { s[i].f.reset(); s.erase(s.begin() + i); g.note() << "destroy " << i << "; "; }
    }
    else
    {
      Filter &m = s[i].m; if (C == state_no_save) m.w.assign(2 * K, 0); ++steps;
      Arr<T> in = data<T>(g.dataseed(), exact ? pbt::signed_int : pbt::real_unit, N), w(N); long double top = 1;
      for (size_t x = 0; x < N; ++x)
      {
        cl v(std::real(in.v[x]), std::imag(in.v[x]));
        for (size_t k = 0; k < K; ++k)
        {
          cl w0 = v - m.a[2 * k] * m.w[2 * k] - m.a[2 * k + 1] * m.w[2 * k + 1]; v = m.b[3 * k] * w0 + m.b[3 * k + 1] * m.w[2 * k] + m.b[3 * k + 2] * m.w[2 * k + 1];
          m.w[2 * k + 1] = m.w[2 * k]; m.w[2 * k] = w0; top = std::max(top, std::max(std::abs(w0), std::abs(v)));
        }
        w.v[x] = mk<T>::from(v);
      }
      // exact while everything fits in the mantissa
      double eps = std::numeric_limits<typename is_cplx<T>::real>::epsilon(); if (top * 20 < 1 / eps && exact) {} else tol = std::max<double>(tol, top * eps * 2e4);
      with_vector<T, V_dense | V_subset | V_other | V_col>(g, N, [&](auto &oi) { with_vector<T, V_dense | V_subset | V_other>(g, N, [&](auto &oo) {
        oi.set(in); oo.set(Arr<T>(N)); g.note() << "filter " << i << ' ' << oi.kind << " to " << oo.kind << "; ";
        auto r = (*s[i].f)(oi.view, oo.view); oo.holds(g, w, "IIR output", near_<T>{tol}); oi.holds(g, in, "the input");
        REQUIRE(g, r.size() == N && pbt::same(r.get(N - 1), oo.view.get(N - 1)), "the result is not the output view");
      }); });
    }
  }
  if (steps > 1) g.nontrivial();
}

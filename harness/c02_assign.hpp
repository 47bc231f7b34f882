// C02: dst = src for all kinds of views
#include "views.hpp"
using namespace pv;
template <class X> struct conv { template <class S> static X from(S s) { return X(s); } };

template <class D, class S, class Od, class Os> void run(pbt::Gen &g, Od &d, Os &s, Arr<S> const &a, bool same_order)
{
  s.set(a);
  Arr<D> old = read(d.view); 
  g.note() << d.kind << " = " << s.kind;
  Arr<D> want(a.n[0], a.n[1], a.n[2]); for (size_t i = 0; i < a.v.size(); ++i) want.v[i] = conv<D>::from(S(a.v[i]));
  unsigned how = g.draw(3);
  if (how == 0) d.view = s.view;
  else if (how == 1) { auto const &c = s.view; d.view = c; }
  else { auto c = s.view; auto e = d.view; e = c; }
  if (!d.holds(g, want, "assigned")) return;
  s.holds(g, a, "the source after assignment");
  if (g.flip(1, 4)) { D x = pbt::make<D>::from(7, 3, pbt::ramp); d.view = x; for (size_t i = 0; i < want.v.size(); ++i) want.v[i] = x; g.note() << ", = scalar"; d.holds(g, want, "assigned a scalar"); }
  if (g.flip(1, 4)) { d.view = d.view; g.note() << ", = itself"; d.holds(g, want, "assigned to itself"); }
  if (a.v.size() > 1) g.nontrivial();
  g.label(std::string(d.kind) + " = " + s.kind);
}
template <class D, class S, int MD, int MS> void vectors(pbt::Gen &g)
{
  size_t n = g.large(g.len(1, 80), 2100, 300); auto a = data<S>(g.dataseed(), pbt::small_int, n);
  g.note() << n << ": ";
  with_vector<D, MD>(g, n, [&](auto &d) { with_vector<S, MS>(g, n, [&](auto &s) { run<D, S>(g, d, s, a, true); }); });
}
template <class D, class S, int MD, int MS> void matrices(pbt::Gen &g)
{
  size_t n = g.len(1, 20), m = g.flip(1, 4) ? n : g.len(1, 20); g.large({&n, &m}, 300, 40, 300); auto a = data<S>(g.dataseed(), pbt::small_int, n, m);
  g.note() << n << "x" << m << ": ";
  with_matrix<D, MD>(g, n, m, [&](auto &d) { with_matrix<S, MS>(g, n, m, [&](auto &s) { run<D, S>(g, d, s, a, true); }); });
}
template <class D, class S, int MD, int MS> void tensors(pbt::Gen &g)
{
  size_t n = g.len(1, 7), m = g.len(1, 7), l = g.len(1, 7); g.large({&n, &m, &l}, 100, 14, 300); auto a = data<S>(g.dataseed(), pbt::small_int, n, m, l);
  g.note() << n << "x" << m << "x" << l << ": ";
  with_tensor<D, MD>(g, n, m, l, [&](auto &d) { with_tensor<S, MS>(g, n, m, l, [&](auto &s) { run<D, S>(g, d, s, a, true); }); });
}

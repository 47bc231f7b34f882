// products of a vector with the rows or columns of a distributed matrix, generators
#include "c25_par.hpp"
#include <vsip/impl/vmmul.hpp>
typedef complex<float> cf; typedef complex<double> cd;
// a vector replicated, or distributed as the matrix along its direction; the matrix not distributed in the direction where that forbids it
template <dimension_type Dim, class T, class U, class O, class D0, class D1, bool Rep> void vmm(pbt::Gen &g)
{
  typedef typename Promotion<T, U>::type P; size_t m[3] = {1, 1, 1}; shape<2>(g, m); Dist d[2] = {{dist_of<D0>::kind, 1, 0}, {dist_of<D1>::kind, 1, 0}}; size_t np = num_processors(); int split = Rep ? (Dim == 0 ? 0 : 1) : (Dim == 0 ? 1 : 0);
  if (d[split].kind) { d[split].s = 1 + g.draw(np); if (d[split].kind == 2) d[split].c = 1 + g.draw(3); } g.note() << m[0] << 'x' << m[1] << ", " << d[0].s << 'x' << d[1].s << " subblocks; ";
  D0 a = dist_of<D0>::make(d[0]); D1 b = dist_of<D1>::make(d[1]); std::vector<processor_type> p = procs(g, d[0].s * d[1].s); Vector<processor_type> pv(p.size()); for (size_t i = 0; i < p.size(); ++i) pv.put(i, p[i]); const_Vector<processor_type> cp = pv;
  typedef Map<D0, D1> MM; MM mm(cp, a, b); Matrix<U, Dense<2, U, O, MM>> x(m[0], m[1], mm); Matrix<P, Dense<2, P, O, MM>> z(m[0], m[1], mm); size_t n = m[1 - Dim]; std::vector<T> rv(n); std::vector<U> rx(m[0] * m[1]); long s = g.range(1, 90); for (size_t i = 0; i < n; ++i) rv[i] = val<T>::of(s + 5 * i); for (size_t i = 0; i < rx.size(); ++i) rx[i] = val<U>::of(s / 2 + 3 * i);
  auto each = [&](auto w, auto f) { if (subblock(w) == no_subblock) return; for (size_t q = 0; q < num_patches(w); ++q) { auto G = global_domain(w, q), L = local_domain(w, q); for (size_t e = 0; e < dsize(G); ++e) if (!f(elem(L, e), elem(G, e))) return; } };
  each(x, [&](Ix<2> l, Ix<2> y) { x.local().put(l[0], l[1], rx[y[0] * m[1] + y[1]]); return true; });
  auto run = [&](auto v) { each(v, [&](Ix<1> l, Ix<1> y) { v.local().put(l[0], rv[y[0]]); return true; }); z = vmmul<Dim>(v, x); };
  typedef typename std::conditional<Dim == 0, D1, D0>::type DV; typedef typename std::conditional<Rep, Replicated_map<1>, Map<DV>>::type MV; 
  struct mk { static Replicated_map<1> vm(Replicated_map<1> *, const_Vector<processor_type>, D0, D1) { return Replicated_map<1>(); } static Map<DV> vm(Map<DV> *, const_Vector<processor_type> c, D0 a, D1 b) { return Map<DV>(c, pick(a, b, std::integral_constant<int, Dim>())); } static D1 pick(D0, D1 b, std::integral_constant<int, 0>) { return b; } static D0 pick(D0 a, D1, std::integral_constant<int, 1>) { return a; } };
  MV vm = mk::vm((MV *)0, cp, a, b); Vector<T, Dense<1, T, row1_type, MV>> v(n, vm); run(v);
  each(z, [&](Ix<2> l, Ix<2> y) { P w = rv[Dim == 0 ? y[1] : y[0]] * rx[y[0] * m[1] + y[1]], q = z.local().get(l[0], l[1]); REQUIRE(g, q == w, "product at " << str<2>(y) << " is " << q << ", not " << w << " on process " << local_processor()); return q == w; });
  if (np > 1 && rx.size() > 1) g.nontrivial(); g.label(Rep ? "replicated vector" : "distributed vector");
}
PROP(vmmul_row_replicated, 100, 4000) { vmm<0, float, float, row2_type, B, B, true>(g); }
PROP(vmmul_col_replicated, 100, 4000) { vmm<1, float, float, row2_type, B, B, true>(g); }
PROP(vmmul_row_distributed, 100, 4000) { vmm<0, double, double, row2_type, B, B, false>(g); }
PROP(vmmul_col_distributed, 100, 4000) { vmm<1, float, float, row2_type, B, B, false>(g); }
PROP(vmmul_row_replicated_col, 100, 4000) { vmm<0, float, cf, col2_type, B, W, true>(g); }
PROP(vmmul_col_distributed_col, 100, 4000) { vmm<1, cd, cd, col2_type, B, W, false>(g); }
PROP(vmmul_row_distributed_col, 100, 4000) { vmm<0, float, float, col2_type, W, B, false>(g); }
PROP(vmmul_row_cyclic, 100, 4000) { vmm<0, float, float, row2_type, C, W, true>(g); }
PROP(vmmul_col_replicated_mixed, 100, 4000) { vmm<1, cf, float, row2_type, W, B, true>(g); }

// ramps assigned to distributed views, and in expressions (a subset of a distributed view as the destination of a generator is documented as not implemented: ovxx::unimplemented)
template <class Sd> void ramped(pbt::Gen &g)
{
  typedef typename Sd::value_type T; size_t m[3] = {1, 1, 1}; shape<1>(g, m); g.note() << m[0] << ": "; Sd l(g, m), r(g, m); l.w.fill(g.range(1, 300)); r.w.fill(g.range(1, 300)); long a = g.range(0, 20), b = g.range(0, 9); T A = T(a), Bb = T(b); auto vl = l.view(); auto vr = r.view(); int k = g.draw(4); g.note() << "ramp " << a << ' ' << b << " form " << k << "; ";
  if (k == 0) vl = ramp(A, Bb, m[0]); else if (k == 1) vl += ramp(A, Bb, m[0]); else if (k == 2) vl = vr * T(2) + ramp(A, Bb, m[0]); else vl = vr - ramp(A, Bb, m[0]) * vl;
  for (size_t i = 0; i < m[0]; ++i) { Ix<1> x{{i}}; T w = A + T(i) * Bb, o = acc<Sd>::get(l, l.pos(x)), q = acc<Sd>::get(r, r.pos(x)); acc<Sd>::put(l, l.pos(x), k == 0 ? w : k == 1 ? T(o + w) : k == 2 ? T(q * T(2) + w) : T(q - w * o)); }
  l.w.check(g, "ramp"); r.w.check(g, "operand"); if (num_processors() > 1 && m[0] > 1) g.nontrivial(); g.label("form " + std::to_string(k));
}
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int> using S1 = Part<1, T, DB<1, T, M>>; template <class M, class T = int, class O = row2_type> using Rw = Row<T, DB<2, T, M, O>>; template <class M, class T = int, class O = row2_type> using Cl = Col<T, DB<2, T, M, O>>; typedef Map<B, B, W> BB; typedef Map<C, B, W> CB;
PROP(ramp_block, 120, 4000) { ramped<P1<MB>>(g); }
PROP(ramp_cyclic, 120, 4000) { ramped<P1<MC, float>>(g); }
PROP(ramp_replicated, 120, 4000) { ramped<P1<MR>>(g); }

PROP(ramp_row, 120, 4000) { ramped<Rw<BB>>(g); }
PROP(ramp_column, 120, 4000) { ramped<Cl<CB>>(g); }

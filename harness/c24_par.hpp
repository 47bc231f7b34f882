// C24 assignment between distributed views: every side is a view (whole or a subview) of a mapped block, with the whole block modelled
#ifndef C24_PAR
#define C24_PAR
#include <vsip/complex.hpp>
#include <vsip/impl/replicated_map.hpp>
#include <ovxx/parallel/assign.hpp>
#include <ovxx/parallel/assign_local.hpp>
#include <ovxx/strided.hpp>
#include "c23_map.hpp"
typedef Whole_dist W; typedef Block_dist B; typedef Cyclic_dist C; 
template <class T> struct val { static T of(long a) { return T(a % 120); } }; template <class T> struct val<complex<T>> { static complex<T> of(long a) { return complex<T>(a % 1021, a / 3 % 977); } };
template <> struct val<bool> { static bool of(long a) { return a * 7 / 3 % 2; } }; template <> struct val<int> { static int of(long a) { return a; } }; template <> struct val<double> { static double of(long a) { return a + 0.25; } };

template <class M> struct mkmap;
template <dimension_type D> struct mkmap<Replicated_map<D>>
{
  static Replicated_map<D> make(pbt::Gen &g, int) { if (g.flip()) { g.note() << "replicated"; return Replicated_map<D>(); } std::vector<processor_type> p = procs(g, 1); g.note() << "replicated on"; Vector<processor_type> v(p.size()); for (size_t i = 0; i < p.size(); ++i) { v.put(i, p[i]); g.note() << ' ' << p[i]; } const_Vector<processor_type> c = v; return Replicated_map<D>(c); }
};
template <class D0, class D1, class D2> struct mkmap<Map<D0, D1, D2>>
{
  static Map<D0, D1, D2> make(pbt::Gen &g, int D)
  {
    Dist d[3] = {{dist_of<D0>::kind, 1, 0}, {dist_of<D1>::kind, 1, 0}, {dist_of<D2>::kind, 1, 0}}; grid(g, d, D); for (int i = 0; i < D; ++i) g.note() << (d[i].kind == 0 ? "whole " : d[i].kind == 1 ? "block " : "cyclic ") << d[i].s << '/' << d[i].c << ' ';
    D0 a = dist_of<D0>::make(d[0]); D1 b = dist_of<D1>::make(d[1]); D2 c = dist_of<D2>::make(d[2]); if (g.flip()) return Map<D0, D1, D2>(a, b, c);
    std::vector<processor_type> p = procs(g, d[0].s * d[1].s * d[2].s); g.note() << "on"; Vector<processor_type> v(p.size()); for (size_t i = 0; i < p.size(); ++i) { v.put(i, p[i]); g.note() << ' ' << p[i]; } const_Vector<processor_type> pv = v; return Map<D0, D1, D2>(pv, a, b, c);
  }
};
template <class V> typename V::value_type pget(V const &v, Ix<1> x) { return v.get(x[0]); } template <class V> typename V::value_type pget(V const &v, Ix<2> x) { return v.get(x[0], x[1]); } template <class V> typename V::value_type pget(V const &v, Ix<3> x) { return v.get(x[0], x[1], x[2]); }
template <class V, class T> void pput(V const &v, Ix<1> x, T a) { v.put(x[0], a); } template <class V, class T> void pput(V const &v, Ix<2> x, T a) { v.put(x[0], x[1], a); } template <class V, class T> void pput(V const &v, Ix<3> x, T a) { v.put(x[0], x[1], x[2], a); }
// a mapped block and its model
template <int D, class T, class Blk> struct Whole
{
  typedef typename ovxx::view_of<Blk>::type V; typedef typename Blk::map_type M; static int const dim = D; size_t n[3]; M map; V v; std::vector<T> ref; size_t total;
  static V create(size_t const *n, M const &m, std::integral_constant<int, 1>) { return V(n[0], m); } static V create(size_t const *n, M const &m, std::integral_constant<int, 2>) { return V(n[0], n[1], m); } static V create(size_t const *n, M const &m, std::integral_constant<int, 3>) { return V(n[0], n[1], n[2], m); }
  Whole(pbt::Gen &g, size_t const *s) : n{s[0], D > 1 ? s[1] : 1, D > 2 ? s[2] : 1}, map(mkmap<M>::make(g, D)), v(create(n, map, std::integral_constant<int, D>())), total(n[0] * n[1] * n[2]) { ref.resize(total); g.note() << "; "; }
  template <class F> void each(F f) { if (subblock(v) == no_subblock) return; for (size_t p = 0; p < num_patches(v); ++p) { Domain<D> G = global_domain(v, p), L = local_domain(v, p); for (size_t e = 0; e < dsize(G); ++e) if (!f(elem(L, e), linear<D>(elem(G, e), n))) return; } }
  void fill(long salt) { for (size_t i = 0; i < total; ++i) ref[i] = val<T>::of(salt + i * 3); each([&](Ix<D> y, size_t i) { pput(v.local(), y, T(ref[i])); return true; }); }
  void check(pbt::Gen &g, char const *what) { auto l = v.local(); each([&](Ix<D> y, size_t i) { T a = pget(l, y); REQUIRE(g, a == ref[i], what << ": element " << str<D>(unlinear<D>(i, n)) << " is " << a << ", not " << T(ref[i]) << " on process " << local_processor()); return a == ref[i]; }); }
};
template <int D, class T, class M, class O = row1_type> using DB = Dense<D, T, O, M>;
template <int D> struct cm; template <> struct cm<1> { typedef row1_type type; }; template <> struct cm<2> { typedef col2_type type; }; template <> struct cm<3> { typedef col3_type type; };
template <int D> struct rm; template <> struct rm<1> { typedef row1_type type; }; template <> struct rm<2> { typedef row2_type type; }; template <> struct rm<3> { typedef row3_type type; };
inline Domain<1> place(pbt::Gen &g, size_t m, size_t &n) { size_t st = m > 1 && g.flip() ? 1 + g.draw(3) : 1, f = g.draw(5), e = g.draw(5); n = f + (m ? (m - 1) * st + 1 : 0) + e; if (m > 1 && g.flip(1, 3)) return Domain<1>(f + (m - 1) * st, -(long)st, m); return Domain<1>(f, st, m); }
template <class Dm> void note(pbt::Gen &g, Dm const &d, int D) { (void)D; g.note() << d; }
inline std::string show(Domain<1> const &d) { std::ostringstream o; o << '[' << d.first() << ':' << d.stride() << ':' << d.size() << ']'; return o.str(); }
// sides: how the D-dimensional view of shape m arises from a mapped block
template <int D, class T, class Blk> struct Plain { static int const dim = D; typedef T value_type; Whole<D, T, Blk> w; Plain(pbt::Gen &g, size_t const *m) : w(g, m) {} auto view() { return w.v; } size_t pos(Ix<D> x) { return linear<D>(x, w.n); } };
template <int D> struct doms { Domain<1> d[3]; size_t n[3]; doms(pbt::Gen &g, size_t const *m) { for (int i = 0; i < D; ++i) { d[i] = place(g, m[i], n[i]); g.note() << show(d[i]); } } Domain<D> get() const { return get(Domain<D>()); } Domain<1> get(Domain<1>) const { return d[0]; } Domain<2> get(Domain<2>) const { return Domain<2>(d[0], d[1]); } Domain<3> get(Domain<3>) const { return Domain<3>(d[0], d[1], d[2]); } Ix<D> at(Ix<D> x) const { for (int i = 0; i < D; ++i) x[i] = d[i].first() + d[i].stride() * (long)x[i]; return x; } };
template <int D, class T, class Blk> struct Part { static int const dim = D; typedef T value_type; doms<D> d; Whole<D, T, Blk> w; Part(pbt::Gen &g, size_t const *m) : d(g, m), w(g, d.n) {} auto view() { return w.v(d.get()); } size_t pos(Ix<D> x) { return linear<D>(d.at(x), w.n); } };
template <int D, class T, class Blk> struct Part2 { static int const dim = D; typedef T value_type; doms<D> d, e; Whole<D, T, Blk> w; Part2(pbt::Gen &g, size_t const *m) : d(g, m), e(g, d.n), w(g, e.n) {} auto view() { return w.v(e.get())(d.get()); } size_t pos(Ix<D> x) { return linear<D>(e.at(d.at(x)), w.n); } };
template <class T, class Blk> struct Trans { static int const dim = 2; typedef T value_type; size_t s[2]; Whole<2, T, Blk> w; Trans(pbt::Gen &g, size_t const *m) : s{m[1], m[0]}, w(g, s) { g.note() << "transposed; "; } auto view() { return w.v.transpose(); } size_t pos(Ix<2> x) { return linear<2>(Ix<2>{{x[1], x[0]}}, w.n); } };
template <class T, class Blk> struct Row { static int const dim = 1; typedef T value_type; size_t s[2], i; Whole<2, T, Blk> w; Row(pbt::Gen &g, size_t const *m) : s{1 + g.draw(6), m[0]}, i(g.draw(s[0])), w(g, s) { g.note() << "row " << i << " of " << s[0] << "; "; } auto view() { return w.v.row(i); } size_t pos(Ix<1> x) { return linear<2>(Ix<2>{{i, x[0]}}, w.n); } };
template <class T, class Blk> struct Col { static int const dim = 1; typedef T value_type; size_t s[2], i; Whole<2, T, Blk> w; Col(pbt::Gen &g, size_t const *m) : s{m[0], 1 + g.draw(6)}, i(g.draw(s[1])), w(g, s) { g.note() << "column " << i << " of " << s[1] << "; "; } auto view() { return w.v.col(i); } size_t pos(Ix<1> x) { return linear<2>(Ix<2>{{x[0], i}}, w.n); } };
template <int F, class T, class Blk> struct Slice { static int const dim = 2; typedef T value_type; size_t s[3], i; Whole<3, T, Blk> w; Slice(pbt::Gen &g, size_t const *m) : s{F == 0 ? 1 + g.draw(4) : m[0], F == 0 ? m[0] : F == 1 ? 1 + g.draw(4) : m[1], F == 2 ? 1 + g.draw(4) : m[1]}, i(g.draw(s[F])), w(g, s) { g.note() << "slice " << i << " of dimension " << F << "; "; }
  auto view(std::integral_constant<int, 0>) { return w.v(i, whole_domain, whole_domain); } auto view(std::integral_constant<int, 1>) { return w.v(whole_domain, i, whole_domain); } auto view(std::integral_constant<int, 2>) { return w.v(whole_domain, whole_domain, i); } auto view() { return view(std::integral_constant<int, F>()); }
  size_t pos(Ix<2> x) { Ix<3> y; for (int k = 0, j = 0; k < 3; ++k) y[k] = k == F ? i : x[j++]; return linear<3>(y, w.n); } };
template <int Im, int D, class T, class Blk> struct Comp { static int const dim = D; typedef typename ovxx::scalar_of<T>::type value_type; Whole<D, T, Blk> w; Comp(pbt::Gen &g, size_t const *m) : w(g, m) {} auto view(std::integral_constant<int, 0>) { return w.v.real(); } auto view(std::integral_constant<int, 1>) { return w.v.imag(); } auto view() { return view(std::integral_constant<int, Im>()); } size_t pos(Ix<D> x) { return linear<D>(x, w.n); } };
template <class S> struct acc { template <class A> static void put(S &s, size_t i, A a) { s.w.ref[i] = a; } static typename S::value_type get(S &s, size_t i) { return s.w.ref[i]; } };
template <int D, class T, class Blk> struct acc<Comp<0, D, T, Blk>> { template <class A> static void put(Comp<0, D, T, Blk> &s, size_t i, A a) { s.w.ref[i].real(a); } static typename ovxx::scalar_of<T>::type get(Comp<0, D, T, Blk> &s, size_t i) { return s.w.ref[i].real(); } };
template <int D, class T, class Blk> struct acc<Comp<1, D, T, Blk>> { template <class A> static void put(Comp<1, D, T, Blk> &s, size_t i, A a) { s.w.ref[i].imag(a); } static typename ovxx::scalar_of<T>::type get(Comp<1, D, T, Blk> &s, size_t i) { return s.w.ref[i].imag(); } };
template <int D, class VL, class VR> struct Planned { typedef typename VL::block_type L; typedef typename VR::block_type R; typedef typename ovxx::parallel::choose_par_assign_impl<D, L, R, true>::type tag; ovxx::parallel::Assignment<D, L, R, tag> a; Planned(VL l, VR r) : a(l, r) {} void operator()() { a(); } };

template <class SL, class SR, bool Plan = true> struct planner { template <class VL, class VR> static void go(pbt::Gen &g, SL &l, SR &r, VL vl, VR vr, size_t const *m, size_t total); };
template <class SL, class SR> void model(SL &l, SR &r, size_t const *m, size_t total) { int const D = SL::dim; for (size_t i = 0; i < total; ++i) { Ix<D> x = unlinear<D>(i, m); acc<SL>::put(l, l.pos(x), (typename SL::value_type)acc<SR>::get(r, r.pos(x))); } }
template <class SL, class SR, bool Plan> template <class VL, class VR> void planner<SL, SR, Plan>::go(pbt::Gen &g, SL &l, SR &r, VL vl, VR vr, size_t const *m, size_t total)
{
  Planned<SL::dim, VL, VR> p(vl, vr); int times = 1 + g.draw(3); g.note() << "planned " << times << " times; "; for (int k = 0; k < times; ++k) { if (k) { r.w.fill(g.range(1000, 9000)); if (g.flip()) l.w.fill(g.range(20000, 29000)); } p(); model(l, r, m, total); l.w.check(g, "planned destination"); r.w.check(g, "planned source"); }
}
template <class SL, class SR> struct planner<SL, SR, false> { template <class VL, class VR> static void go(pbt::Gen &, SL &, SR &, VL, VR, size_t const *, size_t) {} };
template <class SL, class SR, bool Plan> void assigned(pbt::Gen &g)
{
  int const D = SL::dim; size_t m[3] = {1, 1, 1}; shape<D>(g, m); size_t total = m[0] * m[1] * m[2]; for (int i = 0; i < D; ++i) g.note() << m[i] << ' '; g.note() << ": to "; SL l(g, m); g.note() << "from "; SR r(g, m); l.w.fill(50000); r.w.fill(g.range(1, 900)); auto vl = l.view(); auto vr = r.view();
  int times = 1 + g.draw(2); for (int k = 0; k < times; ++k) { if (k) r.w.fill(g.range(1000, 9000)); vl = vr; model(l, r, m, total); l.w.check(g, "destination"); r.w.check(g, "source"); }
  if (Plan && g.flip()) planner<SL, SR, Plan>::go(g, l, r, vl, vr, m, total);
  if (num_processors() > 1 && total > 1) g.nontrivial(); g.label(m[0] < num_processors() ? "fewer rows than processes" : "more rows than processes");
}
template <class SL, class SR> void assigned(pbt::Gen &g) { assigned<SL, SR, true>(g); }
#endif

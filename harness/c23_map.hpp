// C23 maps
#include <vsip/initfin.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/domain.hpp>
#include <map>
#include <vector>
#include <array>
#include <algorithm>
#include "pbt.hpp"
using namespace vsip;
// a distribution of one dimension and its definition
struct Dist { int kind; size_t s, c; };      // 0 whole, 1 block, 2 cyclic
template <class D> struct dist_of; 
template <> struct dist_of<Whole_dist> { enum { kind = 0 }; static Whole_dist make(Dist const &) { return Whole_dist(); } };
template <> struct dist_of<Block_dist> { enum { kind = 1 }; static Block_dist make(Dist const &d) { return Block_dist(d.s); } };
template <> struct dist_of<Cyclic_dist> { enum { kind = 2 }; static Cyclic_dist make(Dist const &d) { return Cyclic_dist(d.s, d.c ? d.c : 1); } };
inline size_t owner(Dist const &d, size_t n, size_t i)
{
  if (d.kind == 0) return 0; if (d.kind == 2) return i / d.c % d.s;
  size_t q = n / d.s, r = n % d.s; return i < r * (q + 1) ? i / (q + 1) : r + (i - r * (q + 1)) / q; // sizes differ by at most one, in order
}
template <int D> using Ix = std::array<size_t, D>;
template <int D> Ix<D> unlinear(size_t i, size_t const *n) { Ix<D> x; for (int d = D; d-- > 0;) { x[d] = i % n[d]; i /= n[d]; } return x; }
template <int D> size_t linear(Ix<D> const &x, size_t const *n) { size_t r = 0; for (int d = 0; d < D; ++d) r = r * n[d] + x[d]; return r; }
inline Index<1> index(Ix<1> const &x) { return Index<1>(x[0]); } inline Index<2> index(Ix<2> const &x) { return Index<2>(x[0], x[1]); } inline Index<3> index(Ix<3> const &x) { return Index<3>(x[0], x[1], x[2]); }
template <dimension_type D> size_t dsize(Domain<D> const &x) { size_t r = 1; for (int d = 0; d < D; ++d) r *= x[d].size(); return r; }
template <dimension_type D> Ix<D> elem(Domain<D> const &x, size_t i) { Ix<D> r; for (int d = D; d-- > 0;) { size_t m = x[d].size(); r[d] = x[d].first() + x[d].stride() * (long)(i % m); i /= m; } return r; }
inline Domain<1> dom(size_t const *n, Domain<1>) { return Domain<1>(n[0]); } inline Domain<2> dom(size_t const *n, Domain<2>) { return Domain<2>(n[0], n[1]); } inline Domain<3> dom(size_t const *n, Domain<3>) { return Domain<3>(n[0], n[1], n[2]); }
template <int D, class M> struct view; 
template <class M> struct view<1, M> { typedef Vector<int, Dense<1, int, row1_type, M>> type; static type make(size_t const *n, M const &m) { return type(n[0], m); } };
template <class M> struct view<2, M> { typedef Matrix<int, Dense<2, int, row2_type, M>> type; static type make(size_t const *n, M const &m) { return type(n[0], n[1], m); } };
template <class M> struct view<3, M> { typedef Tensor<int, Dense<3, int, row3_type, M>> type; static type make(size_t const *n, M const &m) { return type(n[0], n[1], n[2], m); } };
template <class V> int at(V const &v, Ix<1> x) { return v.get(x[0]); } template <class V> int at(V const &v, Ix<2> x) { return v.get(x[0], x[1]); } template <class V> int at(V const &v, Ix<3> x) { return v.get(x[0], x[1], x[2]); }
template <class V> void set(V const &v, Ix<1> x, int a) { v.put(x[0], a); } template <class V> void set(V const &v, Ix<2> x, int a) { v.put(x[0], x[1], a); } template <class V> void set(V const &v, Ix<3> x, int a) { v.put(x[0], x[1], x[2], a); }
template <int D> std::string str(Ix<D> const &x) { std::string r; for (size_t a : x) r += (r.empty() ? "(" : ",") + std::to_string(a); return r + ")"; }
#define NEED(...) do { REQUIRE(g, __VA_ARGS__); if (g.failed) return; } while (0)

inline std::vector<processor_type> procs(pbt::Gen &g, size_t least)
{
  // distinct processors in any order
  size_t np = num_processors(); std::vector<processor_type> all(np); const_Vector<processor_type> ps = processor_set(); for (size_t i = 0; i < np; ++i) all[i] = ps.get(i); for (size_t i = np; i > 1; --i) std::swap(all[i - 1], all[g.draw(i)]); all.resize(least + g.draw(np - least + 1)); return all;
}
template <int D> void shape(pbt::Gen &g, size_t *n) { for (int d = 0; d < D; ++d) n[d] = 1 + g.draw(D == 1 ? (g.flip(1, 4) ? 70 : 14) : D == 2 ? 11 : 6); if (D == 1) n[0] = g.large(n[0], 3000, 100); else g.large({&n[0], &n[D - 1]}, D == 2 ? 300 : 100, D == 2 ? 40 : 14, 100); }
inline void grid(pbt::Gen &g, Dist *d, int D)
{
  size_t np = num_processors(); size_t left = np; int order[3] = {0, 1, 2}; for (int i = D; i > 1; --i) std::swap(order[i - 1], order[g.draw(i)]);
  for (int i = 0; i < D; ++i) { Dist &x = d[order[i]]; x.s = 1; x.c = 0; if (x.kind) { x.s = g.flip(1, 4) ? left : 1 + g.draw(left); left /= x.s; } if (x.kind == 2) x.c = g.pick({(size_t)1, (size_t)2, (size_t)(1 + g.draw(5)), (size_t)(1 + g.draw(12))}); }
}
template <class V, int D> void subset(pbt::Gen &g, V v, size_t const *n, std::vector<size_t> const &own, std::vector<processor_type> const &pv);
template <bool Sub> struct maybe_subset { template <class V, int D> static void go(pbt::Gen &, V, size_t const *, std::vector<size_t> const &, std::vector<processor_type> const &) {} };
template <> struct maybe_subset<true> { template <class V, int D> static void go(pbt::Gen &g, V v, size_t const *n, std::vector<size_t> const &own, std::vector<processor_type> const &pv) { subset<V, D>(g, v, n, own, pv); } };

template <int D, class D0, class D1, class D2> void mapped(pbt::Gen &g)
{
  typedef Map<D0, D1, D2> M; Dist d[3] = {{dist_of<D0>::kind, 1, 0}, {dist_of<D1>::kind, 1, 0}, {dist_of<D2>::kind, 1, 0}}; size_t n[3] = {1, 1, 1}; shape<D>(g, n); grid(g, d, D); size_t sbs = d[0].s * d[1].s * d[2].s;
  for (int i = 0; i < D; ++i) g.note() << n[i] << (d[i].kind == 0 ? " whole " : d[i].kind == 1 ? " block " : " cyclic ") << d[i].s << '/' << d[i].c << "; ";
  std::vector<processor_type> pv; bool given = g.flip(); if (given) { pv = procs(g, sbs); g.note() << "on"; for (auto p : pv) g.note() << ' ' << p; } else for (size_t i = 0; i < sbs; ++i) pv.push_back(processor_set().get(i));
  Vector<processor_type> pvv(pv.size()); for (size_t i = 0; i < pv.size(); ++i) pvv.put(i, pv[i]); const_Vector<processor_type> cpv = pvv;
  D0 a = dist_of<D0>::make(d[0]); D1 b = dist_of<D1>::make(d[1]); D2 c = dist_of<D2>::make(d[2]); M map0 = given ? M(cpv, a, b, c) : M(a, b, c); M map = map0; if (g.flip()) { M other; other = map0; map = other; }
  pv.resize(sbs);
  NEED(map.num_subblocks() == sbs, "the map has " << map.num_subblocks() << " subblocks, not " << sbs); NEED(map.num_processors() == sbs, "the map has " << map.num_processors() << " processors");
  for (int i = 0; i < D; ++i) { NEED(map.num_subblocks(i) == d[i].s, "dimension " << i << " has " << map.num_subblocks(i) << " subblocks"); NEED(map.cyclic_contiguity(i) == d[i].c, "dimension " << i << " has contiguity " << map.cyclic_contiguity(i)); NEED(map.distribution(i) == (d[i].kind == 0 ? whole : d[i].kind == 1 ? block : cyclic), "dimension " << i << " has distribution " << map.distribution(i)); }
  NEED((map == map0), "a copy of a map differs"); { const_Vector<processor_type> ps = map.processor_set(); NEED(ps.size() == sbs, "the processor set has " << ps.size()); for (size_t i = 0; i < sbs; ++i) NEED(ps.get(i) == pv[i], "processor " << i << " of the set is " << ps.get(i)); }
  typedef typename view<D, M>::type V; V v = view<D, M>::make(n, map);
  size_t total = n[0] * n[1] * n[2]; std::vector<size_t> own(total, (size_t)-1); std::map<std::array<size_t, 3>, size_t> cell; std::vector<bool> used(sbs); size_t filled = 0, patches = 0;
  NEED(num_subblocks(v) == sbs, "the view has " << num_subblocks(v) << " subblocks");
  for (size_t sb = 0; sb < sbs; ++sb)
  {
    Domain<D> sd = subblock_domain(v, sb); size_t ln[3] = {1, 1, 1}; for (int i = 0; i < D; ++i) { ln[i] = sd[i].size(); NEED(sd[i].first() == 0 && (sd[i].stride() == 1 || ln[i] < 2), "subblock " << sb << " does not start at 0"); } std::vector<bool> seen(dsize(sd)); filled += !seen.empty(); size_t np = num_patches(v, sb);
    for (size_t p = 0; p < np; ++p)
    {
      Domain<D> G = global_domain(v, sb, p), L = local_domain(v, sb, p); patches += dsize(G) > 0; for (int i = 0; i < D; ++i) NEED(G[i].size() == L[i].size(), "patch " << p << " of subblock " << sb << " has " << G[i].size() << " global and " << L[i].size() << " local positions in dimension " << i);
      for (size_t e = 0; e < dsize(G); ++e)
      {
        Ix<D> x = elem(G, e), y = elem(L, e); for (int i = 0; i < D; ++i) { NEED(x[i] < n[i], "patch " << p << " of subblock " << sb << " has global index " << str<D>(x)); NEED(y[i] < ln[i], "patch " << p << " of subblock " << sb << " has local index " << str<D>(y)); }
        size_t k = linear<D>(x, n), l = linear<D>(y, ln); NEED(own[k] == (size_t)-1, "index " << str<D>(x) << " is in subblocks " << own[k] << " and " << sb); own[k] = sb; NEED(!seen[l], "local index " << str<D>(y) << " of subblock " << sb << " holds two elements"); seen[l] = true;
        size_t q = subblock_from_global_index(v, index(x)); NEED(q == sb, "subblock_from_global_index " << str<D>(x) << " is " << q << ", not " << sb); q = patch_from_global_index(v, index(x)); NEED(q == p, "patch_from_global_index " << str<D>(x) << " is " << q << ", not " << p << " (of subblock " << sb << ")");
        Index<D> li = local_from_global_index(v, index(x)), gi = global_from_local_index(v, sb, index(y)); for (int i = 0; i < D; ++i) { NEED(li[i] == y[i], "local_from_global_index " << str<D>(x) << " is " << li[i] << " in dimension " << i << ", not " << y[i]); NEED(gi[i] == x[i], "global_from_local_index " << str<D>(y) << " of subblock " << sb << " is " << gi[i] << " in dimension " << i << ", not " << x[i]);
          NEED(local_from_global_index(v, i, x[i]) == y[i], "local_from_global_index in dimension " << i); NEED(global_from_local_index(v, i, sb, y[i]) == x[i], "global_from_local_index in dimension " << i); }
        std::array<size_t, 3> o = {0, 0, 0}; for (int i = 0; i < D; ++i) o[i] = owner(d[i], n[i], x[i]); auto it = cell.find(o); if (it == cell.end()) { NEED(!used[sb], "subblock " << sb << " holds index " << str<D>(x) << " of another part"); used[sb] = true; cell[o] = sb; } else NEED(it->second == sb, "index " << str<D>(x) << " is in subblock " << sb << " but belongs with subblock " << it->second);
      }
    }
    for (size_t l = 0; l < seen.size(); ++l) NEED(seen[l], "local position " << l << " of subblock " << sb << " holds no element");
    size_t count = 0; for (auto it = map.processor_begin(sb); it != map.processor_end(sb); ++it, ++count) NEED(*it == pv[sb], "subblock " << sb << " is on processor " << *it << ", not " << pv[sb]); NEED(count == 1, "subblock " << sb << " is on " << count << " processors"); NEED(map.subblock(pv[sb]) == sb && subblock(v, pv[sb]) == sb, "processor " << pv[sb] << " has subblock " << map.subblock(pv[sb]) << ", not " << sb);
  }
  for (size_t k = 0; k < total; ++k) NEED(own[k] != (size_t)-1, "index " << str<D>(unlinear<D>(k, n)) << " is in no subblock");
  for (size_t i = 0; i < num_processors(); ++i) { processor_type p = processor_set().get(i); if (std::find(pv.begin(), pv.end(), p) == pv.end()) NEED(map.subblock(p) == no_subblock, "processor " << p << " is not in the map but has subblock " << map.subblock(p)); }
  NEED(map.subblock() == map.subblock(local_processor()), "this processor's subblock"); size_t mine = subblock(v); NEED(mine == map.subblock(), "the view's subblock is " << mine);
  size_t lsize = 0; for (size_t k = 0; k < total; ++k) lsize += own[k] == mine; NEED(v.local().size() == lsize, "the local view has " << v.local().size() << " elements, not " << lsize);
  if (mine != no_subblock) { for (int i = 0; i < D; ++i) { NEED(subblock_domain(v)[i].size() == subblock_domain(v, mine)[i].size(), "this processor's subblock domain"); NEED(lsize == 0 || (v.local().size(i) == subblock_domain(v, mine)[i].size()), "the local view's size in dimension " << i); } NEED(num_patches(v) == num_patches(v, mine), "this processor's number of patches");
    for (size_t p = 0; p < num_patches(v); ++p) { Domain<D> G = global_domain(v, p), L = local_domain(v, p); NEED(G == global_domain(v, mine, p) && L == local_domain(v, mine, p), "this processor's patch " << p);
      for (size_t e = 0; e < dsize(G); ++e) { Ix<D> y = elem(L, e); set(v.local(), y, (int)linear<D>(elem(G, e), n)); Index<D> gi = global_from_local_index(v, index(y)); for (int i = 0; i < D; ++i) NEED(gi[i] == elem(G, e)[i] && global_from_local_index(v, i, y[i]) == elem(G, e)[i], "global_from_local_index of this processor"); } } }
  maybe_subset<dist_of<D0>::kind != 2 && (D < 2 || dist_of<D1>::kind != 2) && (D < 3 || dist_of<D2>::kind != 2)>::template go<V, D>(g, v, n, own, pv);
  if (sbs > 1 && filled > 1) g.nontrivial(); g.label(sbs == 1 ? "one subblock" : filled < sbs ? "some empty" : patches > sbs ? "several patches" : "one patch each");
}
inline Domain<1> sub(pbt::Gen &g, size_t n, bool &whole) { if (g.flip(1, 4)) return Domain<1>(n); whole = false; size_t len = 1 + g.draw(n), st = len > 1 ? 1 + g.draw((n - 1) / (len - 1)) : 1, f = g.draw(n - (len - 1) * st); if (g.flip()) return Domain<1>(f + (len - 1) * st, -(long)st, len); return Domain<1>(f, st, len); }
inline Domain<1> sub(pbt::Gen &g, size_t const *n, Domain<1>, bool &w) { return sub(g, n[0], w); } inline Domain<2> sub(pbt::Gen &g, size_t const *n, Domain<2>, bool &w) { Domain<1> a = sub(g, n[0], w); return Domain<2>(a, sub(g, n[1], w)); } inline Domain<3> sub(pbt::Gen &g, size_t const *n, Domain<3>, bool &w) { Domain<1> a = sub(g, n[0], w), b = sub(g, n[1], w); return Domain<3>(a, b, sub(g, n[2], w)); }
// the map of a subview (block and whole distributions only): its patches partition the subset, on the processors that hold it
template <class V, int D> void subset(pbt::Gen &g, V v, size_t const *n, std::vector<size_t> const &own, std::vector<processor_type> const &pv)
{
  bool w = true; Domain<D> s = sub(g, n, Domain<D>(), w); size_t m[3] = {1, 1, 1}; for (int i = 0; i < D; ++i) { m[i] = s[i].size(); g.note() << " [" << s[i].first() << ':' << s[i].stride() << ':' << m[i] << ']'; } auto u = v(s); std::vector<bool> seen(dsize(s)); auto const &map = u.block().map();
  for (size_t sb = 0; sb < map.num_subblocks(); ++sb) { processor_type pr = *map.processor_begin(sb); NEED(map.subblock(pr) == sb, "subset: processor " << pr << " has subblock " << map.subblock(pr) << ", not " << sb);
    for (size_t p = 0; p < num_patches(u, sb); ++p) { Domain<D> G = global_domain(u, sb, p), L = local_domain(u, sb, p); for (int i = 0; i < D; ++i) NEED(G[i].size() == L[i].size(), "subset: sizes of patch " << p << " of subblock " << sb);
      for (size_t e = 0; e < dsize(G); ++e) { Ix<D> x = elem(G, e), y = elem(L, e), z; for (int i = 0; i < D; ++i) { NEED(x[i] < m[i], "subset: subblock " << sb << " has global index " << str<D>(x)); z[i] = s[i].first() + s[i].stride() * x[i]; } size_t k = linear<D>(x, m); NEED(!seen[k], "subset: index " << str<D>(x) << " is in two subblocks"); seen[k] = true; NEED(pv[own[linear<D>(z, n)]] == pr, "subset: index " << str<D>(x) << " is said to be on processor " << pr << " but is on " << pv[own[linear<D>(z, n)]]);
        if (pr == local_processor()) { for (int i = 0; i < D; ++i) NEED(y[i] < u.local().size(i), "subset: local index " << str<D>(y) << " is outside the local view"); NEED(at(u.local(), y) == (int)linear<D>(z, n), "subset: local element " << str<D>(y) << " is " << at(u.local(), y) << ", not element " << str<D>(z) << " of the whole"); } } } }
  for (size_t k = 0; k < seen.size(); ++k) NEED(seen[k], "subset: index " << str<D>(unlinear<D>(k, m)) << " is in no subblock"); g.label("subset");
}

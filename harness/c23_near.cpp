// Maps that differ in little: equal or equivalent only if they place every element alike, as seen in what an assignment moves.
#include "c23_map.hpp"
#include <vsip/math.hpp>
template <int D, class D0, class D1, class D2> void near_(pbt::Gen &g)
{
  typedef Map<D0, D1, D2> M; typedef typename view<D, M>::type V; Dist d[3] = {{dist_of<D0>::kind, 1, 0}, {dist_of<D1>::kind, 1, 0}, {dist_of<D2>::kind, 1, 0}}, e[3]; size_t n[3] = {1, 1, 1}; shape<D>(g, n); grid(g, d, D);
  auto count = [](Dist const *x) { return x[0].s * x[1].s * x[2].s; }; size_t sbs = count(d), np = num_processors(); std::vector<processor_type> pv = procs(g, sbs), pw; pv.resize(sbs); std::copy(d, d + 3, e); pw = pv;
  char const *how = "the same"; int k = g.draw(D);
  switch (g.draw(6))
  {
  case 0: break;
  case 1: case 2: for (int i = 0; i < D; ++i) { int j = (k + i) % D; if (e[j].kind != 2) continue; e[j].c = d[j].c + (d[j].c > 1 && g.flip() ? -1 : 1 + (int)g.draw(3)); how = "another contiguity"; break; } break;
  case 3: for (int i = 0; i + 1 < D; ++i) { int j = (k + i) % D, l = (j + 1) % D; if (e[j].kind && e[l].kind && e[j].s != e[l].s) { std::swap(e[j].s, e[l].s); how = "subblock counts exchanged"; break; } } break;
  case 4: if (sbs > 1) { std::rotate(pw.begin(), pw.begin() + 1 + g.draw(sbs - 1), pw.end()); how = "processors permuted"; } break;
  default: for (int i = 0; i < D; ++i) { int j = (k + i) % D; if (!e[j].kind || e[j].s < 2) continue; --e[j].s; how = "one subblock less"; break; } pw.resize(count(e)); break;
  }
  auto mk = [&](Dist const *x, std::vector<processor_type> const &p) { Vector<processor_type> v(p.size()); for (size_t i = 0; i < p.size(); ++i) v.put(i, p[i]); const_Vector<processor_type> c = v; return M(c, dist_of<D0>::make(x[0]), dist_of<D1>::make(x[1]), dist_of<D2>::make(x[2])); };
  M a = mk(d, pv), b = mk(e, pw);
  for (int i = 0; i < D; ++i) g.note() << n[i] << (d[i].kind == 0 ? " whole " : d[i].kind == 1 ? " block " : " cyclic ") << d[i].s << '/' << d[i].c << " and " << e[i].s << '/' << e[i].c << "; "; g.note() << how; g.label(how);
  auto place = [&](Dist const *x, std::vector<processor_type> const &p, Ix<D> const &y) { size_t sb = 0; for (int i = 0; i < D; ++i) sb = sb * x[i].s + owner(x[i], n[i], y[i]); return p[sb]; };
  size_t total = n[0] * n[1] * n[2]; bool alike = true; for (size_t t = 0; t < total; ++t) { Ix<D> y = unlinear<D>(t, n); alike = alike && place(d, pv, y) == place(e, pw, y); }
  V v = view<D, M>::make(n, a), w = view<D, M>::make(n, b), u = view<D, M>::make(n, b);
  auto each = [&](V const &x, auto f) { if (subblock(x) != no_subblock) for (size_t p = 0; p < num_patches(x); ++p) { Domain<D> G = global_domain(x, p), L = local_domain(x, p); for (size_t i = 0; i < dsize(G); ++i) f(elem(G, i), elem(L, i)); } };
  each(v, [&](Ix<D> const &y, Ix<D> const &l) { set(v.local(), l, 1 + (int)linear<D>(y, n)); }); each(w, [&](Ix<D> const &, Ix<D> const &l) { set(w.local(), l, -1); set(u.local(), l, -1); });
  w = v; u = v + 5; V z = view<D, M>::make(n, a); each(z, [&](Ix<D> const &, Ix<D> const &l) { set(z.local(), l, 3); }); z = w;
  if (g.draw(3) == 0) { u = w + v; each(u, [&](Ix<D> const &y, Ix<D> const &l) { if (!g.failed) REQUIRE(g, at(u.local(), l) == 2 + 2 * (int)linear<D>(y, n), "element " << str<D>(y) << " of the sum over both maps is " << at(u.local(), l)); }); }
  else each(u, [&](Ix<D> const &y, Ix<D> const &l) { if (!g.failed) REQUIRE(g, at(u.local(), l) == 6 + (int)linear<D>(y, n), "element " << str<D>(y) << " of an expression assigned is " << at(u.local(), l) << ", not " << 6 + (int)linear<D>(y, n)); });
  each(w, [&](Ix<D> const &y, Ix<D> const &l) { if (!g.failed) REQUIRE(g, at(w.local(), l) == 1 + (int)linear<D>(y, n), "element " << str<D>(y) << " assigned is " << at(w.local(), l) << ", not " << 1 + (int)linear<D>(y, n)); });
  each(z, [&](Ix<D> const &y, Ix<D> const &l) { if (!g.failed) REQUIRE(g, at(z.local(), l) == 1 + (int)linear<D>(y, n), "element " << str<D>(y) << " assigned back is " << at(z.local(), l) << ", not " << 1 + (int)linear<D>(y, n)); });
  NEED(!(a == b) || alike, "the maps are equal but place elements differently"); NEED((a == b) == (b == a), "equality is not symmetric"); NEED((a == a) && (b == b), "a map differs from itself");
  if (np > 1 && total > 1) g.nontrivial();
}
typedef Block_dist B; typedef Cyclic_dist C; typedef Whole_dist W;
PROP(near_vector_cyclic, 300, 10000) { near_<1, C, W, W>(g); }
PROP(near_vector_block, 200, 8000) { near_<1, B, W, W>(g); }
PROP(near_matrix_cyclic, 300, 10000) { near_<2, C, C, W>(g); }
PROP(near_matrix_block_cyclic, 300, 10000) { near_<2, B, C, W>(g); }
PROP(near_matrix_block, 200, 8000) { near_<2, B, B, W>(g); }
PROP(near_tensor, 300, 10000) { near_<3, C, C, C>(g); }
PROP(near_tensor_block, 200, 8000) { near_<3, B, C, B>(g); }

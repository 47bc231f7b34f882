// C26: views of mapped blocks (one process), and their local views
#define C26_PARTS 0
#define C26_NODIAG
#define C26_BEFORE processor_set(); /* kept by the library from then on */

#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include "c26_life.hpp"
#include <vsip/map.hpp>

namespace c26
{
// the local view of a mapped view keeps the local block alive
template <class V> struct local_root { };
}
using namespace c26; typedef complex<float> cf; typedef Map<Block_dist, Block_dist> MB; typedef Replicated_map<1> R1;
template <dimension_type D, class T, class O, class M> using DB = Dense<D, T, O, M>;
typedef Vector<float, DB<1, float, row1_type, Map<>>> VM; typedef Vector<cf, DB<1, cf, row1_type, R1>> VR; typedef Matrix<float, DB<2, float, col2_type, MB>> MM;
PROP(mapped_vectors, 1000, 30000) { static std::vector<Maker> const m = {&make<VM, 1>, &make<VR, 1>}; history(g, m); }
PROP(mapped_matrices, 1000, 30000) { static std::vector<Maker> const m = {&make<MM, 1>}; history(g, m); }
PROP(local_views, 200, 10000)
{
  C26_BEFORE Watch w; size_t n = g.range(1, 30); w.fresh.clear(); int k = g.draw(3); g.note() << n << " elements, order " << k;
  auto run = [&](auto *v) { for (size_t i = 0; i < n; ++i) v->put(i, float(i)); std::vector<char *> mem = w.fresh; auto *l = new decltype(v->local())(v->local()); auto *m = new decltype(v->local())(*l);
    auto gone = [&] { size_t c = 0; for (char *p : mem) c += w.live.count(p); return c == 0; };
    if (k == 0) { delete v; v = 0; } if (k == 1) { delete l; l = 0; delete v; v = 0; } if (k == 2) { delete m; m = 0; delete l; l = 0; }
    REQUIRE(g, mem.empty() || !gone(), "the local block went with a view, another is left");
    for (size_t i = 0; i < n; ++i) { float x = v ? float(v->get(i)) : m->get(i); REQUIRE(g, x == i, "element " << i << " is " << x); }
    delete l; delete m; delete v; REQUIRE(g, w.live.empty() && w.error.empty(), "the block is not released once: " << w.error); if (n > 1) g.nontrivial(); };
  if (g.flip()) { g.label("map"); run(new Vector<float, DB<1, float, row1_type, Map<>>>(n, 0.f, Map<>(1))); } else { g.label("replicated"); run(new Vector<float, DB<1, float, row1_type, R1>>(n, 0.f, R1())); }
}

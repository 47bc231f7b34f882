// C24: copying through chains of pieces of memory
#include <vsip/vector.hpp>
#include <ovxx/parallel/copy_chain.hpp>
#include "pbt.hpp"
#include <cstring>
#include <vector>
typedef ovxx::parallel::Copy_chain Chain;
struct Piece { size_t at; int stride; unsigned n; };
// pieces of an array of 'size' elements that do not overlap, with 'total' elements in all
template <class T> void pieces(pbt::Gen &g, std::vector<Piece> &p, std::vector<T> &a, size_t total)
{
  size_t at = 0;
  while (total)
  {
    unsigned n = 1 + g.draw(total < 9 ? total : 9); int s = g.pick({1, 1, 2, 3, -1, -2}); size_t span = (n - 1) * (s < 0 ? -s : s) + 1; at += g.draw(3);
    Piece x = {s < 0 ? at + span - 1 : at, s, n}; p.push_back(x); at += span; total -= n; g.note() << n << 'x' << s << ' ';
  }
  a.assign(at + g.draw(3), T()); for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[g.draw(i + 1)]);
}
template <class T> struct Offset { static void *of(T *p) { return p; } };
template <class T> Chain chain(pbt::Gen &g, std::vector<Piece> const &p, T *a)
{
  Chain c; int how = g.draw(3);
  if (how == 0) for (auto &x : p) c.add(a + x.at, sizeof(T), x.stride, x.n);
  else if (how == 1) { size_t k = g.draw(p.size() + 1); Chain d, e; for (size_t i = 0; i < p.size(); ++i) (i < k ? d : e).add(a + p[i].at, sizeof(T), p[i].stride, p[i].n); c.append(d); c.append(e); }
  else { size_t k = g.draw(p.size() + 1); Chain d, e; for (size_t i = 0; i < p.size(); ++i) (i < k ? d : e).add((void *)(p[i].at * sizeof(T)), sizeof(T), p[i].stride, p[i].n); c.append_offset(a, d); c.append_offset(a, e); }
  return c;
}
template <class T> void copies(pbt::Gen &g)
{
  size_t total = 1 + g.draw(40); std::vector<Piece> ps, pd; std::vector<T> s, d, want; g.note() << "from "; pieces(g, ps, s, total); g.note() << "; to "; pieces(g, pd, d, total);
  std::vector<size_t> from, to; for (auto &x : ps) for (unsigned i = 0; i < x.n; ++i) from.push_back(x.at + i * (ptrdiff_t)x.stride); for (auto &x : pd) for (unsigned i = 0; i < x.n; ++i) to.push_back(x.at + i * (ptrdiff_t)x.stride);
  for (size_t i = 0; i < s.size(); ++i) s[i] = T(i + 1); want = d; std::vector<T> flat(total);
  Chain cs = chain(g, ps, s.data()), cd = chain(g, pd, d.data()); REQUIRE(g, cs.data_size() == total * sizeof(T), "data_size() is " << cs.data_size()); REQUIRE(g, cs.size() == ps.size(), "size() is " << cs.size());
  if (g.flip()) { g.note() << "; gathered"; cs.copy_into(flat.data(), total * sizeof(T)); for (size_t i = 0; i < total; ++i) REQUIRE(g, flat[i] == s[from[i]], "element " << i << " of the buffer is not that of the chain"); }
  else { g.note() << "; scattered"; for (size_t i = 0; i < total; ++i) want[to[i]] = s[from[i]]; cs.copy_into(cd); for (size_t i = 0; i < d.size(); ++i) REQUIRE(g, d[i] == want[i], "element " << i << " of the destination is " << +d[i] << ", not " << +want[i]); }
  if (ps.size() > 1 && pd.size() > 1) g.nontrivial();
}
PROP(copy_chain, 1500, 100000) { if (g.flip()) copies<double>(g); else copies<unsigned char>(g); }

// C23: the iterators over a map's processors move, compare and read as indices into the list of processors
#include "c23_map.hpp"
#include <vsip/impl/local_map.hpp>
template <class M> void walk(pbt::Gen &g, M const &map, index_type sb, std::vector<processor_type> const &want, char const *what)
{
  typedef typename M::processor_iterator I; long n = want.size(), at = 0, other = 0; I const begin = map.processor_begin(sb), end = map.processor_end(sb); std::vector<I> it(1, begin), ot(1, begin);
  NEED(end - begin == n, what << ": " << end - begin << " processors between begin and end instead of " << n); int steps = 1 + g.draw(20); g.label(what); g.note() << what << ", " << n << " processors, " << steps << " steps"; if (n > 1 || steps > 4) g.nontrivial();
  for (int s = 0; s < steps; ++s)
  {
    I &a = it[0]; I const &b = ot[0]; int k = g.draw(10); long to = g.draw(n + 1), d = to - at; bool up = at < n, down = at > 0;
    switch (k)
    {
      case 0: if (up) { ++at; I const &r = ++a; NEED(&r == &a, what << ": ++ gives another iterator"); } break;
      case 1: if (down) { --at; I const &r = --a; NEED(&r == &a, what << ": -- gives another iterator"); } break;
      case 2: if (up) { processor_type p = *a++; NEED(p == want[at], what << ": *it++ is " << p << " at " << at << ", not " << want[at]); ++at; } break;
      case 3: if (down) { I old(a--); NEED(old - begin == at, what << ": it-- gives position " << old - begin << " instead of " << at); --at; } break;
      case 4: a += d; at = to; break;
      case 5: a -= -d; at = to; break;
      case 6: { I c(a + d); NEED(c - begin == to, what << ": it + " << d << " is at " << c - begin << ", not " << to); if (to < n) NEED(*c == want[to], what << ": *(it + " << d << ") is " << *c << " at " << to << ", not " << want[to]); break; }
      case 7: { I c(a - d); NEED(c - begin == at - d, what << ": it - " << d << " is at " << c - begin << ", not " << at - d); break; }
      case 8: ot.clear(); ot.push_back(a); other = at; break;
      default: if (up) { I old(a++); NEED(*old == want[at], what << ": it++ refers to " << *old << ", not " << want[at]); ++at; } break;
    }
    NEED(it[0] - begin == at, what << ": at " << it[0] - begin << " instead of " << at); NEED(end - it[0] == n - at, what << ": " << end - it[0] << " to the end instead of " << n - at); if (at < n) NEED(*it[0] == want[at], what << ": processor " << *it[0] << " at " << at << ", not " << want[at]);
    NEED((it[0] == ot[0]) == (at == other) && (it[0] != ot[0]) == (at != other), what << ": comparison of " << at << " and " << other); NEED((it[0] < ot[0]) == (at < other) && (ot[0] < it[0]) == (other < at), what << ": order of " << at << " and " << other); NEED((it[0] == end) == (at == n), what << ": comparison with the end at " << at);
  }
}
PROP(processor_iterators, 600, 20000)
{
  int np = num_processors(); std::vector<processor_type> all; for (int i = 0; i < np; ++i) all.push_back(processor_set().get(i)); std::vector<processor_type> some; int len = 1 + g.draw(np); std::vector<processor_type> pool = all; for (int i = 0; i < len; ++i) { size_t k = g.draw(pool.size()); some.push_back(pool[k]); pool.erase(pool.begin() + k); }
  switch (g.draw(4))
  {
    case 0: walk(g, Local_map(), 0, std::vector<processor_type>(1, local_processor()), "Local_map"); break;
    case 1: walk(g, Replicated_map<1>(), 0, all, "Replicated_map of all"); break;
    case 2: { Vector<processor_type> v(len); for (int i = 0; i < len; ++i) v.put(i, some[i]); walk(g, Replicated_map<2>(v), 0, some, "Replicated_map of some"); break; }
    default: { Vector<processor_type> v(len); for (int i = 0; i < len; ++i) v.put(i, some[i]); Map<Block_dist> m(v, Block_dist(len)); index_type sb = g.draw(len); walk(g, m, sb, std::vector<processor_type>(1, some[sb]), "Map"); break; }
  }
}

// C28 a part of the processes as the world: what runs under another default communicator sees only its members
#include "c24_par.hpp"
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include "c28_comm.hpp"
static void identity(pbt::Gen &g, Ranks const &m, char const *when)
{
  int p = position(m, world_rank()); REQUIRE(g, num_processors() == m.size(), when << ": num_processors() is " << num_processors() << ", the processes are " << show(m)); REQUIRE(g, (int)local_processor() == p, when << ": local_processor() is " << local_processor() << ", not " << p); REQUIRE(g, (int)local_processor_index() == p, when << ": local_processor_index() is " << local_processor_index() << ", not " << p);
  const_Vector<processor_type> s = processor_set(); REQUIRE(g, s.size() == m.size(), when << ": processor_set() has " << s.size() << " entries, the processes are " << show(m)); for (index_type i = 0; i < s.size(); ++i) REQUIRE(g, s.get(i) == i, when << ": processor_set()[" << i << "] is " << s.get(i));
  Map<> d(num_processors()); REQUIRE(g, d.num_processors() == m.size() && d.num_subblocks() == m.size() && (int)d.subblock() == p, when << ": a map over all processors has subblock " << d.subblock() << " here and " << d.num_processors() << " processors"); Replicated_map<1> r; REQUIRE(g, r.num_processors() == m.size(), when << ": a replicated map has " << r.num_processors() << " processors");
}
// distributed work of the current world; drawn by each world for itself
static void work(pbt::Gen &g, unsigned long seed)
{
  pbt::Gen h; h.state = seed * 0x9e3779b97f4a7c15ULL + 99; h.soft = true; h.notes_on = g.notes_on; int k = h.draw(9);
  switch (k)
  {
    case 0: assigned<Plain<1, int, DB<1, int, Map<B>>>, Plain<1, int, DB<1, int, Map<C>>>>(h); break;
    case 1: assigned<Plain<1, int, DB<1, int, Map<B>>>, Plain<1, int, DB<1, int, Replicated_map<1>>>>(h); break;
    case 2: assigned<Plain<1, int, DB<1, int, Replicated_map<1>>>, Plain<1, int, DB<1, int, Map<C>>>>(h); break;
    case 3: assigned<Plain<2, double, DB<2, double, Map<B, B>>>, Plain<2, double, DB<2, double, Map<B, C>>>>(h); break;
    case 4: assigned<Trans<int, DB<2, int, Map<B, W>>>, Plain<2, int, DB<2, int, Map<B, W>>>>(h); break;
    case 5: assigned<Part<1, int, DB<1, int, Map<B>>>, Plain<1, int, DB<1, int, Map<B>>>>(h); break;
    case 6: case 7:
    {
      size_t n = h.len(1, 60); typedef Map<B> M; typedef Vector<int, Dense<1, int, row1_type, M>> V; M m(num_processors()); V v(n, m), u(n, m); Vector<int, Dense<1, int, row1_type, Replicated_map<1>>> all(n); int a = h.range(1, 9), off = h.range(0, 50); h.note() << "ramp of " << n; v = ramp<int>(off, a, n); u = v * 2 + 1; long sum = 0; for (size_t i = 0; i < n; ++i) sum += (off + a * (int)i) * 2 + 1; int s = sumval(u); REQUIRE(h, s == sum, "sum is " << s << ", not " << sum); for (int q = 0; q < 3; ++q) { index_type i = h.draw(n); int x = u.get(i), e = (off + a * (int)i) * 2 + 1; REQUIRE(h, x == e, "element " << i << " is " << x << ", not " << e); } all = u; auto l = all.local(); for (size_t i = 0; i < n; ++i) REQUIRE(h, l.get(i) == (off + a * (int)i) * 2 + 1, "replicated element " << i << " is " << l.get(i)); break;
    }
    default:
    {
      size_t r = h.len(1, 20), c = h.len(1, 20); typedef Map<B, W> M; M m(num_processors(), 1); Matrix<int, Dense<2, int, row2_type, M>> x(r, c, m), y(r, c, m); x = 3; y = x * x - 2; int t = sumval(y); REQUIRE(h, t == int(r * c * 7), "sum of " << r << " x " << c << " sevens is " << t); bool all = alltrue(y == x + 4); REQUIRE(h, all, "not all elements are 7"); x.put(r - 1, c - 1, 50); int z = x.get(r - 1, c - 1); REQUIRE(h, z == 50, "element put is " << z); length_type p = 0; Index<2> at; int mx = maxval(x, at); (void)p; REQUIRE(h, mx == 50 && at[0] == r - 1 && at[1] == c - 1, "largest is " << mx << " at " << at[0] << ',' << at[1]); break;
    }
  }
  if (g.notes_on) g.note() << "work " << k << " of " << num_processors() << ": " << h.notes.str() << "; "; if (h.failed) { std::ostringstream o; o << "work " << k << " (seed " << seed << ") in a world of " << num_processors() << ": " << h.fail_msg; g.fail(o.str()); }
}
static bool run(pbt::Gen &g, Ranks const &m, int level)
{
  bool in = position(m, world_rank()) >= 0, split_up = false; unsigned long seed = g.dataseed(); if (in) { identity(g, m, level ? "inside" : "whole world"); for (int i = 0, k = 1; i < k; ++i) work(g, seed * 64 + level * 16 + m[0]); }
  typedef Map<B> M; typedef Vector<int, Dense<1, int, row1_type, M>> V; std::unique_ptr<V> kept; size_t n = g.len(1, 40); if (in) { kept.reset(new V(n, M(num_processors()))); *kept = ramp<int>(3, 2, n); }
  int tasks = level < 3 ? g.draw(3) : 0; for (int t = 0; t < tasks; ++t)
  {
    Ranks sub; bool disjoint = g.flip(); Comm old; int colours[64]; if (disjoint) { for (size_t i = 0; i < m.size(); ++i) colours[i] = g.draw(2); int rev = g.flip() ? -1 : 1; g.note() << "split " << show(m) << " by"; for (size_t i = 0; i < m.size(); ++i) g.note() << ' ' << colours[i]; g.note() << (rev < 0 ? " reversed; " : "; ");
      // the two halves run side by side, each a world of its own; draws stay the same on all processes
      Ranks half[2]; for (size_t i = 0; i < m.size(); ++i) { Ranks &z = half[colours[i]]; if (rev > 0) z.push_back(m[i]); else z.insert(z.begin(), m[i]); } int me = position(m, world_rank()); Comm c; if (in) { c = par::default_communicator().split(colours[me], rev * me); old = par::set_default_communicator(c); } Ranks mine = in ? half[colours[me]] : Ranks(); int deeper = g.draw(2); unsigned long s2 = g.dataseed(); if (in) { identity(g, mine, "half"); for (int k = 0; k <= deeper; ++k) work(g, s2 * 64 + k * 8 + mine[0]); Comm back = par::set_default_communicator(old); REQUIRE(g, back == c, "set_default_communicator does not return the communicator replaced"); } if (half[0].size() && half[1].size()) split_up = true; }
    else { Ranks c = distinct(g, m.size(), 1 + g.draw(m.size())); for (int i : c) sub.push_back(m[i]); g.note() << "task on " << show(sub) << "; "; Comm s; if (in) { Group q = par::default_communicator().group(); s = Comm(par::default_communicator(), q.include(c.begin(), c.end())); old = par::set_default_communicator(s); } if (run(g, sub, level + 1)) split_up = true; if (in) { Comm back = par::set_default_communicator(old); if (s) REQUIRE(g, back == s, "set_default_communicator does not return the communicator replaced"); else REQUIRE(g, !back, "set_default_communicator returns a usable communicator"); } if (sub.size() < m.size()) split_up = true; }
    if (in) { identity(g, m, "restored"); int s = sumval(*kept), e = 3 * n + n * (n - 1); REQUIRE(g, s == e, "the sum of a view made before the task is " << s << ", not " << e); *kept = *kept + 0; }
  }
  if (in && tasks) work(g, seed * 64 + 7 + m[0] * 8); return split_up;
}
PROP(worlds, 120, 5000)
{
  g.soft = true; Ranks m; for (int i = 0; i < world_size(); ++i) m.push_back(i); bool s = run(g, m, 0); par::default_communicator().barrier(); if (s || m.size() == 1) g.nontrivial();
}

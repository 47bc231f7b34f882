// C28 groups and communicators: who is a member of what, over histories of creation
#include "c28_comm.hpp"
#include <deque>
struct Grp { Group g; Ranks m; };
static bool agrees(pbt::Gen &g, Grp &x, char const *what)
{
  REQUIRE(g, x.g.size() == x.m.size(), what << ": the group has " << x.g.size() << " members, not " << show(x.m)); int p = position(x.m, world_rank());
  REQUIRE(g, x.g.rank() == (p < 0 ? no_rank : (index_type)p), what << ": rank " << (long)x.g.rank() << " of process " << world_rank() << " in " << show(x.m));
  Ranks a = members(x.g); REQUIRE(g, a == x.m, what << ": the members are " << show(a) << ", not " << show(x.m)); return a == x.m;
}
PROP(groups, 500, 20000)
{
  g.soft = true; Comm world = par::default_communicator(); int n = world_size(); std::deque<Grp> pool; { Grp w; w.g = world.group(); for (int i = 0; i < n; ++i) w.m.push_back(i); pool.push_back(w); } pool.push_back(Grp()); agrees(g, pool[0], "group of the communicator"); agrees(g, pool[1], "empty group");
  int steps = 1 + g.draw(14), big = 0; for (int s = 0; s < steps; ++s)
  {
    Grp a = pool[g.draw(pool.size())], b = pool[g.draw(pool.size())], r; int k = a.m.size(), how = g.draw(3); char const *what = "";
    switch (g.draw(8))
    {
      case 0: case 1: { Ranks c = distinct(g, k, g.draw(k + 1)); for (int i : c) r.m.push_back(a.m[i]); g.note() << "include " << show(c) << " of " << show(a.m) << "; "; what = "include"; std::list<int> l(c.begin(), c.end()); std::vector<processor_type> u(c.begin(), c.end()); if (how == 0) r.g = a.g.include(c.data(), c.data() + c.size()); else if (how == 1) r.g = a.g.include(l.begin(), l.end()); else r.g = a.g.include(u.begin(), u.end()); break; }
      case 2: case 3: { Ranks c = distinct(g, k, g.draw(k + 1)); for (int i = 0; i < k; ++i) if (position(c, i) < 0) r.m.push_back(a.m[i]); g.note() << "exclude " << show(c) << " of " << show(a.m) << "; "; what = "exclude"; std::list<int> l(c.begin(), c.end()); std::vector<processor_type> u(c.begin(), c.end()); if (how == 0) r.g = a.g.exclude(c.data(), c.data() + c.size()); else if (how == 1) r.g = a.g.exclude(l.begin(), l.end()); else r.g = a.g.exclude(u.begin(), u.end()); if (c.empty()) g.label("exclude nobody"); break; }
      case 4: r.g = a.g | b.g; r.m = a.m; for (int i : b.m) if (position(a.m, i) < 0) r.m.push_back(i); what = "union"; g.note() << show(a.m) << " | " << show(b.m) << "; "; break;
      case 5: r.g = a.g & b.g; for (int i : a.m) if (position(b.m, i) >= 0) r.m.push_back(i); what = "intersection"; g.note() << show(a.m) << " & " << show(b.m) << "; "; break;
      case 6: r.g = a.g - b.g; for (int i : a.m) if (position(b.m, i) < 0) r.m.push_back(i); what = "difference"; g.note() << show(a.m) << " - " << show(b.m) << "; "; break;
      default:
      {
        r = a; Ranks q; for (int i = 0, c = g.draw(6); i < c && k; ++i) q.push_back(g.draw(k)); Ranks o(q.size() + 1, -7); what = "copy"; g.note() << "translate " << show(q) << " of " << show(a.m) << " to " << show(b.m) << "; ";
        if (how == 0) { int *e = a.g.translate_ranks(q.data(), q.data() + q.size(), b.g, o.data()); REQUIRE(g, e == o.data() + q.size(), "translate_ranks returns another end"); } else { std::list<int> l(q.begin(), q.end()); Ranks::iterator e = a.g.translate_ranks(l.begin(), l.end(), b.g, o.begin()); REQUIRE(g, e == o.begin() + q.size(), "translate_ranks returns another end"); }
        for (size_t i = 0; i < q.size(); ++i) { int p = position(b.m, a.m[q[i]]); REQUIRE(g, o[i] == (p < 0 ? MPI_UNDEFINED : p), "translate_ranks: rank " << q[i] << " of " << show(a.m) << " became " << o[i] << " in " << show(b.m)); } REQUIRE(g, o.back() == -7, "translate_ranks wrote past the end");
      }
    }
    agrees(g, r, what); if (r.m.size() > 1 && (int)r.m.size() < n) ++big; if (r.m.empty()) g.label("empty group");
    if (pool.size() > 6 || g.flip(1, 4)) { size_t i = g.draw(pool.size()); pool[i] = r; } else pool.push_back(r); for (Grp &x : pool) agrees(g, x, "a group kept");
  }
  if (big > 0 || n <= 2) g.nontrivial();
}
struct Cm { Comm c; Ranks m; int id; bool in() const { return position(m, world_rank()) >= 0; } };
// members, ranks and, if the process is a member, a message round and a reduction
static void agrees(pbt::Gen &g, Cm &x, char const *what, unsigned long seed)
{
  int w = world_rank(), p = position(x.m, w); REQUIRE(g, (bool)x.c == (p >= 0), what << ": the communicator on process " << w << (x.c ? " is usable" : " is not usable") << ", members are " << show(x.m)); if (p < 0 || !x.c) return; int n = x.m.size();
  REQUIRE(g, (int)x.c.rank() == p, what << ": rank " << x.c.rank() << " instead of " << p << " of process " << w << " in " << show(x.m)); REQUIRE(g, (int)x.c.size() == n, what << ": size " << x.c.size() << " instead of " << n);
  Comm::pvec_type const &v = x.c.pvec(); REQUIRE(g, (int)v.size() == n, what << ": pvec() has " << v.size() << " entries, the communicator " << n << " processes"); for (size_t i = 0; i < v.size(); ++i) REQUIRE(g, v[i] == i, what << ": pvec()[" << i << "] is " << v[i]);
  Grp y; y.g = x.c.group(); y.m = x.m; agrees(g, y, what); if ((int)x.c.rank() != p || (int)x.c.size() != n) return;
  int root = seed % n; long a[3] = {-1, -1, -1}; if (p == root) for (int i = 0; i < 3; ++i) a[i] = seed * 3 + i; x.c.broadcast(root, a, 3); for (int i = 0; i < 3; ++i) REQUIRE(g, a[i] == (long)(seed * 3 + i), what << ": broadcast from " << root << " delivered " << a[i]);
  int sum = x.c.allreduce(ovxx::reduce_sum, 1 << w), all = 0; for (int i : x.m) all += 1 << i; REQUIRE(g, sum == all, what << ": the sum over " << show(x.m) << " is " << sum);
  int shift = seed / 7 % n; long out[2] = {(long)(seed + 1000 * p), w}, got[2] = {-1, -1}; Comm::request_type q; x.c.send((p + shift) % n, out, 2, q); int from = (p + n - shift) % n; x.c.recv(from, got, 2); x.c.wait(q); REQUIRE(g, got[0] == (long)(seed + 1000 * from) && got[1] == x.m[from], what << ": the message from " << from << " is {" << got[0] << ' ' << got[1] << "}"); x.c.barrier();
}
PROP(communicators, 150, 6000)
{
  g.soft = true; int n = world_size(), w = world_rank(), id = 1; std::deque<Cm> pool; std::vector<Comm> owners; { Cm a; a.c = par::default_communicator(); a.id = 0; for (int i = 0; i < n; ++i) a.m.push_back(i); pool.push_back(a); } unsigned long seed = g.dataseed(); agrees(g, pool[0], "default communicator", seed);
  int steps = 1 + g.draw(8), sub = 0; for (int s = 0; s < steps; ++s)
  {
    Cm a = pool[g.draw(pool.size())]; int k = a.m.size(); std::vector<Cm> made; char const *what = "";
    switch (g.draw(9))
    {
      case 0: { Cm r; r.c = Comm(); r.id = 0; for (int i = 0; i < n; ++i) r.m.push_back(i); made.push_back(r); what = "Communicator()"; break; }
      case 1: { Cm r; r.id = id++; r.m = a.m; if (a.in()) { Comm d(a.c, Comm::comm_duplicate); r.c = d; } else { Comm d(MPI_COMM_NULL, Comm::comm_duplicate); r.c = d; } made.push_back(r); what = "duplicate"; break; }
      case 2: { Cm r; r.id = a.id; r.m = a.m; Comm d(a.in() ? (MPI_Comm)a.c : MPI_COMM_NULL, Comm::comm_attach); r.c = d; made.push_back(r); owners.push_back(a.c); what = "attach"; break; }
      case 3: { Cm r; r.id = id++; r.m = a.m; MPI_Comm d = MPI_COMM_NULL; if (a.in()) MPI_Comm_dup(a.c, &d); Comm t(d, Comm::comm_take_ownership); r.c = t; made.push_back(r); what = "adopted"; break; }
      case 4: case 5:
      {
        std::vector<int> color(k), key(k); int colors = 1 + g.draw(3); bool keyed = g.flip(); g.note() << "split " << show(a.m) << " by"; for (int i = 0; i < k; ++i) { color[i] = g.flip(1, 8) ? MPI_UNDEFINED : g.draw(colors); key[i] = keyed ? g.range(-2, 3) : i; g.note() << ' ' << color[i] << '/' << key[i]; } g.note() << "; "; Comm c; int me = position(a.m, w); bool has = me >= 0; if (has) { if (keyed) c = a.c.split(color[me], key[me]); else c = a.c.split(color[me]); }
        for (int q = 0; q < colors; ++q) { std::vector<std::pair<int, int>> o; for (int i = 0; i < k; ++i) if (color[i] == q) o.push_back(std::make_pair(key[i], i)); std::sort(o.begin(), o.end()); Cm r; r.id = id++; for (auto &z : o) r.m.push_back(a.m[z.second]); if (r.m.empty()) continue; if (has && color[me] == q) r.c = c; else r.c = Comm(MPI_COMM_NULL, Comm::comm_attach); made.push_back(r); }
        if (has && color[me] == MPI_UNDEFINED) REQUIRE(g, !c, "split gives process " << w << " a communicator for no color"); what = "split"; break;
      }
      case 6: case 7:
      {
        Ranks c = distinct(g, k, 1 + g.draw(k)); bool excl = g.flip(1, 3); Cm r; r.id = id++; if (excl) { c.resize(c.size() - 1); for (int i = 0; i < k; ++i) if (position(c, i) < 0) r.m.push_back(a.m[i]); } else for (int i : c) r.m.push_back(a.m[i]); g.note() << (excl ? "all but " : "subgroup ") << show(c) << " of " << show(a.m) << "; ";
        if (a.in()) { Group q = a.c.group(); Comm d(a.c, excl ? q.exclude(c.begin(), c.end()) : q.include(c.begin(), c.end())); r.c = d; } else r.c = Comm(MPI_COMM_NULL, Comm::comm_attach); made.push_back(r); what = excl ? "excluding" : "subgroup"; break;
      }
      default: { Cm r = a; if (g.flip()) { Comm d(a.c); r.c = pool[0].c; r.c = d; } made.push_back(r); what = "copy"; }
    }
    for (Cm &r : made) { agrees(g, r, what, seed + s); if (r.m.size() > 1 && (int)r.m.size() < n) ++sub; if (pool.size() > 7) { size_t i = 1 + g.draw(pool.size() - 1); pool[i] = r; } else pool.push_back(r); }
    agrees(g, pool[g.draw(pool.size())], "a communicator kept", seed + 11 * s);
    for (Cm &x : pool) for (Cm &y : pool) if (x.in() && y.in()) { bool e = x.c == y.c; REQUIRE(g, e == (x.id == y.id), "communicators over " << show(x.m) << " and " << show(y.m) << " compare " << (e ? "equal" : "different")); REQUIRE(g, (x.c != y.c) == !e, "== and != agree"); }
  }
  for (Cm &x : pool) agrees(g, x, "a communicator kept", seed);
  if (sub || n <= 2) g.nontrivial();
}

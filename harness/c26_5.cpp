// C26: one block, many views at once
#define C26_PARTS 1
#include "c26_life.hpp"
#include <deque>
using namespace c26; typedef complex<float> cf;
namespace
{
size_t count(pbt::Gen &g) { return g.flip(1, 10) ? ((size_t)1 << g.range(8, 16)) + g.range(-2, 40) : g.flip(1, 3) ? g.range(1, 2000) : g.range(1, 60); }
// make: the first view; other: another view of its block
template <class V, class Make, class Other> void crowd(pbt::Gen &g, Make make, Other other)
{
  typedef decltype(other(*make())) S; typedef typename V::value_type T; size_t n = count(g); g.note() << n << " views; "; g.label(n > 65535 ? "beyond 16 bits" : n > 255 ? "beyond 8 bits" : "few");
  Watch w; std::unique_ptr<V> v = make(); std::vector<char *> mem = w.fresh; auto held = [&] { for (char *p : mem) if (!w.live.count(p)) return false; return true; };
  std::deque<S> s; for (size_t i = 0; i < n; ++i) if (i % 3 == 0) s.emplace_back(other(*v)); else s.emplace_back(s[i / 2]);
  REQUIRE(g, held(), "the block went with " << n << " views of it left"); bool first = g.flip(); if (first) { g.note() << "the first view goes first; "; v.reset(); }
  size_t k = 0; unsigned how = g.draw(3); g.note() << (how == 0 ? "oldest first" : how == 1 ? "newest first" : "from both ends");
  while (s.size() > 1) { if (how == 0 || (how == 2 && k % 5 < 2)) s.pop_front(); else s.pop_back(); ++k; if ((k & (k - 1)) == 0 || s.size() < 4) REQUIRE(g, held(), "the block went with " << s.size() << " views of it left, " << n << " at first"); }
  REQUIRE(g, s.front().get(0) == T(3), "element 0 is " << s.front().get(0)); s.front().put(0, T(5)); REQUIRE(g, s.front().get(0) == T(5), "element 0 after a write");
  s.clear(); if (!first) { REQUIRE(g, held(), "the block went before its last view"); v.reset(); } REQUIRE(g, w.error.empty() && w.live.empty(), "the block is not released exactly once, with its last view: " << w.error); if (n > 2) g.nontrivial();
}
}
PROP(many_copies, 60, 800) { size_t n = g.range(1, 9); crowd<Vector<float>>(g, [&] { return std::unique_ptr<Vector<float>>(new Vector<float>(n, 3.f)); }, [](Vector<float> &v) { return v; }); }
PROP(many_subviews, 60, 800) { size_t n = g.range(1, 9); crowd<Vector<cf>>(g, [&] { return std::unique_ptr<Vector<cf>>(new Vector<cf>(n, cf(3))); }, [&](Vector<cf> &v) { return v(Domain<1>(n)); }); }
PROP(many_rows, 60, 800) { size_t n = g.range(1, 9); struct M : Matrix<int> { M(size_t n) : Matrix<int>(n, n, 3) {} }; crowd<M>(g, [&] { return std::unique_ptr<M>(new M(n)); }, [](M &v) { return v.row(0); }); }

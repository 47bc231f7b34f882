// C26: threads taking and dropping references to shared blocks
#define C26_PARTS 1
#include "c26_life.hpp"
#include <thread>
#include <mutex>
#include <atomic>
using namespace c26; typedef complex<float> cf;
namespace
{
struct Locked : Watch { std::mutex m; void *allocate(size_t n) override { std::lock_guard<std::mutex> l(m); return Watch::allocate(n); } void deallocate(void *p, size_t n) override { std::lock_guard<std::mutex> l(m); Watch::deallocate(p, n); } };
typedef std::vector<std::unique_ptr<Handle>> Slots;
// what one thread does with the handles it was given: copies, parts, drops, reads; ends with none
void work(Locked &w, Slots &s, uint64_t seed, size_t steps, std::atomic<int> &ready, int all, std::string &error)
{
  pbt::Gen t; t.mode = pbt::Gen::random; t.state = seed; ovxx::allocator::set_default(&w); ++ready; while (ready < all) ;
  for (size_t i = 0; i < steps && error.empty(); ++i)
  {
    size_t b = t.draw(s.size()); Handle *h = s[b].get(); if (!h) continue; 
    switch (t.draw(8))
    {
    case 0: case 1: case 2: s[t.draw(s.size())].reset(h->copy(t)); break;
    case 3: case 4: if (Handle *k = h->sub(t)) s[t.draw(s.size())].reset(k); break;
    case 5: error = h->wrong(); break;
    default: s[b].reset();
    }
  }
  for (auto &h : s) { if (h && error.empty()) error = h->wrong(); h.reset(); }
  ovxx::allocator::set_default(0);
}
void threads(pbt::Gen &g, std::vector<Maker> const &m)
{
  Locked w; int T = g.range(2, 4); size_t roots = g.range(1, 3), steps = g.range(1, 40); std::vector<Slots> s(T); std::vector<std::string> e(T); std::vector<std::unique_ptr<Handle>> r; g.note() << T << " threads, " << roots << " blocks, " << steps << " steps";
  for (size_t i = 0; i < roots; ++i) r.emplace_back(m[g.draw(m.size())](g, w));
  for (auto &x : s) { x.resize(5); for (size_t i = 0; i < 3; ++i) { pbt::Gen &q = g; x[i].reset(r[g.draw(roots)]->copy(q)); } }
  std::vector<RootP> keep; for (auto &x : r) keep.push_back(x->root);      // user memory stays
  bool own = g.flip(); if (own) r.clear();                                 // the threads hold the last references
  std::vector<uint64_t> seeds; for (int i = 0; i < T; ++i) seeds.push_back(g.dataseed());
  std::atomic<int> ready(0); std::vector<std::thread> t; for (int i = 0; i < T; ++i) t.emplace_back(work, std::ref(w), std::ref(s[i]), seeds[i], steps, std::ref(ready), T, std::ref(e[i]));
  for (auto &x : t) x.join();
  for (auto &x : e) REQUIRE(g, x.empty(), "in a thread, " << x);
  for (auto &x : r) { for (char *p : x->root->mem) REQUIRE(g, w.live.count(p), "the block of " << x->what << " went while referred to"); std::string z = x->wrong(); REQUIRE(g, z.empty(), z); }
  r.clear(); REQUIRE(g, w.error.empty(), w.error); REQUIRE(g, w.live.empty(), w.live.size() << " blocks are never released"); if (steps > 2) g.nontrivial();
}
}
PROP(thread_vectors, 150, 8000) { static std::vector<Maker> const m = {&make<Vector<float>, 1>, &make<Vector<cf>, 1>, &make_user<Vector<float>, 1>}; threads(g, m); }
PROP(thread_matrices, 150, 8000) { static std::vector<Maker> const m = {&make<Matrix<float>, 1>}; threads(g, m); }
// many references at once: one block, copies and parts made and dropped in bursts
template <class V> void burst(pbt::Gen &g, V &v, Locked &w)
{
  int T = g.range(2, 6), n = g.range(1, 4) * 1000; std::vector<char *> mem = w.fresh; std::atomic<int> ready(0); bool part = g.flip(); g.note() << T << " threads, " << n << (part ? " parts" : " copies");
  std::vector<std::thread> t; for (int i = 0; i < T; ++i) t.emplace_back([&] { ovxx::allocator::set_default(&w); ++ready; while (ready < T) ; for (int k = 0; k < n; ++k) { if (part) { auto a = v.row(0); auto b = a; } else { V a(v), b(a); } } ovxx::allocator::set_default(0); });
  for (auto &x : t) x.join();
  for (char *p : mem) REQUIRE(g, w.live.count(p), "the block went while a view refers to it");
  for (int k = 0; k < 8; ++k) REQUIRE(g, v.get(0, 0) == 3.f && v.get(1, 1) == 3.f, "elements changed"); g.nontrivial();
}
PROP(thread_burst, 30, 600)
{
  Locked w; { w.fresh.clear(); Matrix<float> v(2, 2, 3.f); burst(g, v, w); } REQUIRE(g, w.error.empty() && w.live.empty(), "the block is not released exactly once, with its last view " << w.error);
}

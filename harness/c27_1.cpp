// C27: the memory allocators return
#include "c27_mem.hpp"
#include <functional>
using namespace c27; typedef complex<float> cf;
namespace
{
// pieces of memory, each filled with its own pattern
struct Piece { unsigned char *p; size_t bytes; unsigned char tag; std::function<void()> free; };
struct Pieces
{
  std::vector<Piece> v; pbt::Gen &g; Pieces(pbt::Gen &g) : g(g) {}
  void add(void *p, size_t bytes, size_t align, std::function<void()> f)
  {
    REQUIRE(g, p, "no memory"); REQUIRE(g, size_t(p) % align == 0, bytes << " bytes are aligned to " << (size_t(p) & -size_t(p)) << ", not " << align); Piece x = {(unsigned char *)p, bytes, (unsigned char)(g.draw(255) + 1), f};
    for (auto &o : v) REQUIRE(g, x.p + bytes <= o.p || o.p + o.bytes <= x.p || !bytes || !o.bytes, "two pieces overlap");
    memset(p, x.tag, bytes); v.push_back(x);
  }
  void intact(Piece &x) { for (size_t i = 0; i < x.bytes; ++i) REQUIRE(g, x.p[i] == x.tag, "byte " << i << " of " << x.bytes << " changed"); }
  void drop(size_t i) { intact(v[i]); v[i].free(); v.erase(v.begin() + i); }
  ~Pieces() { for (auto &x : v) x.free(); }
  template <class F> void run(F more) { size_t n = g.range(2, 40); for (size_t i = 0; i < n; ++i) if (v.empty() || g.flip(3, 5)) more(); else drop(g.draw(v.size())); while (!v.empty()) drop(v.size() - 1); if (n > 4) g.nontrivial(); }
};
template <class T> void take(pbt::Gen &g, Pieces &p, ovxx::allocator *a) { size_t n = g.len(0, 3000); T *q = a->allocate<T>(n); p.add(q, n * sizeof(T), OVXX_ALLOC_ALIGNMENT, [=] { a->deallocate(q, n); }); }
template <class T> void lined(pbt::Gen &g, Pieces &p) { size_t n = g.len(0, 1000), al = size_t(8) << g.draw(10); T *q = ovxx::alloc_align<T>(al, n); p.add(q, n * sizeof(T), al, [=] { ovxx::free_align(q); }); }
template <class T> void padded(pbt::Gen &g, Pieces &p) { size_t n = g.len(0, 1000), al = size_t(8) << g.draw(10); void *q = ovxx::detail::alloc_align(al, n * sizeof(T)); p.add(q, n * sizeof(T), al, [=] { ovxx::detail::free_align(q); }); }
}
PROP(default_allocator, 1200, 20000) { Pieces p(g); ovxx::allocator *a = ovxx::allocator::get_default(); p.run([&] { switch (g.draw(5)) { case 0: take<char>(g, p, a); break; case 1: take<float>(g, p, a); break; case 2: take<double>(g, p, a); break; case 3: take<cf>(g, p, a); break; case 4: take<short>(g, p, a); } }); }
PROP(own_allocator, 1200, 20000) { ovxx::aligned_allocator x, y; Pieces p(g); p.run([&] { ovxx::allocator *a = g.flip() ? &x : &y; switch (g.draw(3)) { case 0: take<char>(g, p, a); break; case 1: take<float>(g, p, a); break; case 2: take<complex<double>>(g, p, a); break; } }); }
PROP(alloc_align, 1200, 20000) { Pieces p(g); p.run([&] { switch (g.draw(3)) { case 0: lined<char>(g, p); break; case 1: lined<float>(g, p); break; case 2: lined<complex<double>>(g, p); break; } }); }
PROP(alloc_align_padded, 1200, 20000) { Pieces p(g); p.run([&] { switch (g.draw(3)) { case 0: padded<char>(g, p); break; case 1: padded<float>(g, p); break; case 2: padded<complex<double>>(g, p); break; } }); }
// more than can be addressed is refused
template <class T> void huge(pbt::Gen &g)
{
  size_t n = size_t(-1) / sizeof(T) + 1 + g.draw(1000); if (g.flip()) n = (size_t(1) << (60 + g.draw(4))) + g.draw(4); if (n <= size_t(-1) / sizeof(T) / 2) n = size_t(-1) / sizeof(T) + 1; int k = g.draw(2); g.note() << n << " elements of " << sizeof(T) << " bytes"; bool refused = false; ovxx::allocator *a = ovxx::allocator::get_default();
  try { if (k == 0) { T *p = a->allocate<T>(n); refused = !p; if (p) a->deallocate(p, n); } else { T *p = ovxx::alloc_align<T>(64, n); refused = !p; if (p) ovxx::free_align(p); } } catch (std::bad_alloc &) { refused = true; }
  REQUIRE(g, refused, "memory for " << n << " elements of " << sizeof(T) << " bytes is said to exist"); g.nontrivial();
}
PROP(huge_requests, 60, 2000) { switch (g.draw(3)) { case 0: huge<float>(g); break; case 1: huge<complex<double>>(g); break; case 2: huge<double>(g); } }
// arrays that hand over what they own; nothing is drawn while memory is counted
namespace
{
typedef ovxx::aligned_array<float> A;
struct Step { unsigned op, i, j, len, val; };
std::string arrays(std::vector<Step> const &script)
{
  std::unique_ptr<A> s[4]; long val[4] = {0, 0, 0, 0}; size_t len[4] = {0, 0, 0, 0}; float d[64];
  auto bad = [](char const *m) { return std::string(m); };
  for (Step const &t : script)
  {
    size_t i = t.i, j = t.j; for (size_t k = 0; k < 64; ++k) d[k] = float(t.val + k);
    switch (t.op)
    {
    case 0: { size_t al = size_t(16) << (t.val % 6); s[i].reset(new A(al, t.len, d)); len[i] = t.len; val[i] = t.val; if (size_t(s[i]->get()) % al) return bad("an array is not aligned as asked"); break; }
    case 1: s[i].reset(new A(t.len)); len[i] = t.len; val[i] = t.val; for (size_t k = 0; k < t.len; ++k) (*s[i])[k] = d[k]; if (size_t(s[i]->get()) % OVXX_ALLOC_ALIGNMENT) return bad("an array is not aligned"); break;
    case 2: if (s[j] && i != j) { s[i].reset(new A(*s[j])); len[i] = len[j]; val[i] = val[j]; len[j] = 0; if (s[j]->get()) return bad("an array still owns what it handed over"); } break;
    case 3: if (s[i] && s[j]) { *s[i] = *s[j]; if (i != j) { len[i] = len[j]; val[i] = val[j]; len[j] = 0; if (s[j]->get()) return bad("an array still owns what it assigned away"); } } break;
    case 4: if (s[i]) { *s[i] = A(32, t.len, d); len[i] = t.len; val[i] = t.val; } break;
    case 5: s[i].reset(); break;
    case 6: s[i].reset(new A); len[i] = 0; break;
    }
    for (size_t k = 0; k < 4; ++k) if (s[k]) { if (s[k]->size() != len[k]) return bad("an array's size is not what it was given"); for (size_t e = 0; e < len[k]; ++e) if ((*s[k])[e] != float(val[k] + e)) return bad("an array's element changed"); }
  }
  return std::string();
}
}
PROP(aligned_arrays, 1200, 30000)
{
  std::vector<Step> script(g.range(1, 25)); for (auto &t : script) { t.op = g.draw(7); t.i = g.draw(4); t.j = g.draw(4); t.len = g.range(0, 60); t.val = g.draw(100); if (t.op == 3) g.label(t.i == t.j ? "assigned to itself" : "assigned"); }
  size_t before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; std::string e = arrays(script); bool ok = e.empty(); REQUIRE(g, ok, e); size_t after = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
  REQUIRE(g, before == after, after - before << " bytes are never released"); if (script.size() > 4) g.nontrivial();
}

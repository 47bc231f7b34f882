// C29: views of common blocks, copied, derived, read and dropped by several threads
#include "c29_thr.hpp"
#include <ovxx/allocator.hpp>
#include <cstring>
namespace c29
{
// an allocator that counts, and overwrites what is released
struct Count : ovxx::allocator
{
  std::atomic<long> taken, given; ovxx::allocator *before;
  Count() : taken(0), given(0), before(get_default()) { set_default(this); }
  ~Count() { set_default(before); }
  void *allocate(size_t n) override { ++taken; void *p = 0; if (posix_memalign(&p, 64, n ? n : 1)) throw std::bad_alloc(); return p; }
  void deallocate(void *p, size_t n) override { ++given; std::memset(p, 0x5a, n); free(p); }
};
template <class T, class O> struct Roots
{
  std::vector<std::unique_ptr<Vector<T>>> v; std::vector<std::unique_ptr<Matrix<T, Dense<2, T, O>>>> m;
};
inline bool same(float x, long e) { return x == e; }
inline bool same(int x, long e) { return x == e; }
inline bool same(double x, long e) { return x == e; }
inline bool same(C x, long e) { return x == C(e, -e); }
template <class T> T value(long e) { return T(e); }
template <> inline C value<C>(long e) { return C(e, -e); }
// what one thread does: copies of the roots and of its own views, subviews, reads, drops
template <class T, class O> long work(Lcg r, Roots<T, O> const &roots, length_type n, length_type k, int steps, bool keep_some, std::vector<std::shared_ptr<void>> &kept)
{
  typedef Matrix<T, Dense<2, T, O>> M; typedef Vector<T> V; std::vector<std::unique_ptr<V>> v; std::vector<std::unique_ptr<const_Vector<T>>> cv; std::vector<std::unique_ptr<M>> m; long bad = 0;
  for (int s = 0; s < steps; ++s)
  {
    int i = r.n(0, roots.v.size() - 1), j = r.n(0, roots.m.size() - 1);
    switch (r.n(0, 9))
    {
      case 0: v.emplace_back(new V(*roots.v[i])); bad += !same(v.back()->get(n / 2), 1000 * i + n / 2); break;
      case 1: cv.emplace_back(new const_Vector<T>(*roots.v[i])); bad += !same(cv.back()->get(n - 1), 1000 * i + n - 1); break;
      case 2: m.emplace_back(new M(*roots.m[j])); bad += !same(m.back()->get(k - 1, n - 1), 1000 * j + (k - 1) * n + n - 1); break;
      case 3: { typename M::row_type x = roots.m[j]->row(k / 2); typename M::row_type y = x; bad += !same(y.get(n - 1), 1000 * j + (k / 2) * n + n - 1); typename M::transpose_type t = roots.m[j]->transpose(); typename M::transpose_type u(t); bad += !same(u.get(n / 2, k - 1), 1000 * j + (k - 1) * n + n / 2); break; }
      case 4: { typename V::subview_type x = (*roots.v[i])(Domain<1>(n)), y(x); typename V::subview_type z = (*roots.v[i])(Domain<1>(n - 1, -1, n)); bad += !same(z.get(0), 1000 * i + n - 1); bad += !same(y.get(n - 1), 1000 * i + n - 1); break; }
      case 5: { V x(n); x = *roots.v[i] + *roots.v[0]; bad += x.get(n - 1) != value<T>(1000 * i + 2 * (n - 1)); break; }
      case 6: if (!v.empty()) v.emplace_back(new V(*v[r.n(0, v.size() - 1)])); break;
      case 7: if (!v.empty()) { v.erase(v.begin() + r.n(0, v.size() - 1)); } break;
      case 8: if (!m.empty()) { m.erase(m.begin() + r.n(0, m.size() - 1)); } break;
      default: for (int q = 0; q < 20; ++q) { V x(*roots.v[0]); const_Vector<T> y(x); M z(*roots.m[0]); bad += !same(z.get(0, 0), 0); } break;
    }
    if (v.size() > 20) v.clear(); if (m.size() > 20) m.clear(); if (cv.size() > 20) cv.clear();
  }
  if (keep_some) { kept.push_back(std::make_shared<V>(*roots.v[0])); kept.push_back(std::make_shared<M>(*roots.m[0])); }
  return bad;
}
template <class T, class O> void shared(pbt::Gen &g)
{
  int threads = 2 + g.draw(7), nv = 1 + g.draw(2), nm = 1 + g.draw(2), steps = 20 << g.draw(5); length_type n = 1 + g.draw(20), k = 1 + g.draw(5); bool keep_some = g.flip(); uint64_t seed = g.dataseed(); 
  g.nontrivial(); g.note() << threads << " threads, " << nv << " vectors of " << n << ", " << nm << " matrices with " << k << " rows, " << steps << " steps" << (keep_some ? ", last used by threads" : ""); if (keep_some) g.label("thread has the last view");
  Count count; std::vector<long> bad(threads); std::atomic<int> ready(0), done(0); std::atomic<bool> gone(false); std::atomic<long> early(0);
  {
    Roots<T, O> r; for (int i = 0; i < nv; ++i) { r.v.emplace_back(new Vector<T>(n)); for (index_type a = 0; a < n; ++a) r.v[i]->put(a, value<T>(1000 * i + a)); }
    for (int i = 0; i < nm; ++i) { r.m.emplace_back(new Matrix<T, Dense<2, T, O>>(k, n)); for (index_type a = 0; a < k; ++a) for (index_type b = 0; b < n; ++b) r.m[i]->put(a, b, value<T>(1000 * i + a * n + b)); }
    long blocks = count.taken; std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t]() {
      std::vector<std::shared_ptr<void>> kept; std::vector<Vector<T>> mine; vsipl lib; ++ready; while (ready < threads) std::this_thread::yield();
      bad[t] = work<T, O>(Lcg(seed + t), r, n, k, steps, keep_some, kept); if (keep_some) mine.push_back(*r.v[nv - 1]);
      if (count.given) ++early; ++done; while (!gone) std::this_thread::yield();
      if (keep_some) { bad[t] += !same(mine[0].get(n - 1), 1000 * (nv - 1) + n - 1); } mine.clear(); kept.clear(); });
    while (done < threads) std::this_thread::yield();
    long before = count.given; r.v.clear(); r.m.clear(); long after = count.given; gone = true; for (auto &t : th) t.join();
    for (int t = 0; t < threads; ++t) REQUIRE(g, bad[t] == 0, "thread " << t << " read " << bad[t] << " wrong values");
    REQUIRE(g, before == 0, before << " blocks were released while the views that made them exist"); REQUIRE(g, keep_some || after == blocks, "of " << blocks << " blocks, " << after << " were released with their last view");
    REQUIRE(g, count.given == blocks && count.taken == blocks, "of " << blocks << " blocks, " << count.given << " were released when the last view was gone");
  }
}
PROP(shared_float, 25, 1500) { shared<float, row2_type>(g); }
PROP(shared_complex, 25, 1500) { shared<C, col2_type>(g); }
}

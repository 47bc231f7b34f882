// C29: threads, each with a library object and data of its own, run generated programs at the same time; the results are those of the programs run one after the other
#ifndef C29_THR
#define C29_THR
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
#include <vsip/selgen.hpp>
#include "pbt.hpp"
#include <atomic>
#include <thread>
using namespace vsip;
typedef complex<float> C; typedef complex<double> Z;
namespace c29
{
struct Lcg
{
  uint64_t s; explicit Lcg(uint64_t x) : s(x * 2654435761u + 12345) { next(); next(); }
  unsigned next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
  int len(int lo, int hi) { return next() % 3 ? n(lo, hi) : n(hi, 4 * hi); } // a length
  int n(int lo, int hi) { return lo + next() % (hi - lo + 1); }
};
typedef std::vector<double> Res;
inline void val(Lcg &r, float &x) { x = r.n(-9, 9); }
inline void val(Lcg &r, double &x) { x = r.n(-9, 9); }
inline void val(Lcg &r, int &x) { x = r.n(-9, 9); }
template <class T> inline void val(Lcg &r, complex<T> &x) { T a = r.n(-9, 9); x = complex<T>(a, r.n(-9, 9)); }
template <class T, class B> void fill(Lcg &r, Vector<T, B> v) { for (index_type i = 0; i < v.size(); ++i) { T x; val(r, x); v.put(i, x); } }
template <class T, class B> void fill(Lcg &r, Matrix<T, B> v) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) { T x; val(r, x); v.put(i, j, x); } }
inline void keep(Res &o, double x) { o.push_back(x); }
inline void keep(Res &o, float x) { o.push_back(x); }
inline void keep(Res &o, int x) { o.push_back(x); }
template <class T> void keep(Res &o, complex<T> x) { o.push_back(x.real()); o.push_back(x.imag()); }
template <class T, class B> void keep(Res &o, const_Vector<T, B> v) { for (index_type i = 0; i < v.size(); ++i) keep(o, T(v.get(i))); }
template <class T, class B> void keep(Res &o, const_Matrix<T, B> v) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) keep(o, T(v.get(i, j))); }

struct Op { char const *name; void (*f)(Lcg &, Res &); };
struct Prog { std::vector<int> ops; uint64_t seed; int passes; };
// a program gives the same results on each pass; the first pass that differs is told
inline void run(Op const *ops, Prog const &p, Res &out, std::string &error)
{
  for (int k = 0; k < p.passes; ++k)
  {
    Res now; for (size_t i = 0; i < p.ops.size(); ++i) { Lcg r(p.seed + i * 977); try { ops[p.ops[i]].f(r, now); } catch (std::exception const &e) { error = std::string(ops[p.ops[i]].name) + " throws " + e.what(); return; } now.push_back(-12345.5); }
    if (!k) out = now; else if (!(now.size() == out.size() && std::equal(now.begin(), now.end(), out.begin(), [](double a, double b) { return a == b || std::abs(a - b) <= 1e-4 * (1 + std::abs(a)) || (a != a && b != b); }))) { out = now; error = "pass " + std::to_string(k) + " differs from the passes before"; return; }
  }
}
inline void law(pbt::Gen &g, Op const *ops, int count)
{
  int threads = g.draw(4) ? 2 + g.draw(7) : 2; bool same = g.flip(); std::vector<Prog> p(threads); int len = 1 + g.draw(3), passes = 4 << g.draw(4); std::vector<int> shared; for (int i = 0; i < len; ++i) shared.push_back(g.draw(count));
  for (auto &q : p) { q.seed = g.dataseed(); q.passes = passes; if (same) q.ops = shared; else { int l = 1 + g.draw(3); for (int i = 0; i < l; ++i) q.ops.push_back(g.draw(count)); } }
  bool early = g.flip(); // the library objects exist before the work begins
  std::vector<Res> alone(threads), together(threads); std::vector<std::string> err(threads); std::atomic<int> ready(0);
  for (int t = 0; t < threads; ++t) { Prog q = p[t]; q.passes = 1; run(ops, q, alone[t], err[t]); REQUIRE(g, err[t].empty(), "alone, " << err[t]); }
  std::vector<std::thread> th; for (int t = 0; t < threads; ++t) th.emplace_back([&, t]() {
    if (!early) { ++ready; while (ready < threads) std::this_thread::yield(); }
    vsipl mine; if (early) { ++ready; while (ready < threads) std::this_thread::yield(); }
    run(ops, p[t], together[t], err[t]); });
  for (auto &t : th) t.join();
  g.nontrivial(); g.label(same ? "same work" : "mixed work"); g.note() << threads << " threads, " << passes << " passes" << (early ? "" : ", created together"); for (int t = 0; t < threads; ++t) { g.note() << "; "; for (int o : p[t].ops) { g.note() << ops[o].name << " "; g.label(ops[o].name); } }
  for (int t = 0; t < threads; ++t)
  {
    REQUIRE(g, err[t].empty(), "thread " << t << ": " << err[t]); REQUIRE(g, alone[t].size() == together[t].size(), "thread " << t << " has " << together[t].size() << " results instead of " << alone[t].size());
    size_t op = 0; for (size_t i = 0; i < alone[t].size(); ++i) { double a = alone[t][i], b = together[t][i]; if (a == -12345.5) { ++op; continue; } REQUIRE(g, (a == b || std::abs(a - b) <= 1e-4 * (1 + std::abs(a)) || (a != a && b != b)), "thread " << t << ": " << ops[p[t].ops[op]].name << " gives " << b << " next to other threads, " << a << " alone (value " << i << ")"); }
  }
}
template <class V> V make(Lcg &r, length_type n) { V v(n); fill(r, v); return v; }
template <class V> V make(Lcg &r, length_type n, length_type m) { V v(n, m); fill(r, v); return v; }
} // namespace c29
#endif

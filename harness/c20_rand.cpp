// C20 random number generators
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/random.hpp>
#include <vsip/selgen.hpp>
#include "views.hpp"
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd;
// the recurrences, step by step
static unsigned const primes[100] = {3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,227,229,233,239,241,251,257,263,269,271,277,281,283,293,307,311,313,317,331,337,347,349,353,359,367,373,379,383,389,397,401,409,419,421,431,433,439,443,449,457,461,463,467,479,487,491,499,503,509,521,523,541,547};
struct Ref
{
  uint32_t x, y, inc; unsigned k; bool portable; uint64_t drawn = 0;
  static uint32_t step(uint32_t x) { return (uint32_t)(1664525ull * x + 1013904223ull); }
  Ref(uint64_t seed, uint64_t procs, uint64_t id, bool p) : x((uint32_t)seed), y(1), inc(0), k(procs), portable(p)
  {
    if (!p) { for (unsigned i = 0; i < id; ++i) x = step(x); return; }
    for (unsigned c = 2, n = 0; n < id; ) { ++c; bool pr = true; for (unsigned q = 2; q * q <= c; ++q) if (c % q == 0) pr = false; if (pr) { ++n; inc = c; } }
    if (id > 1) { uint64_t skip = (4294967295ull / procs) * (id - 1); jump((uint32_t)skip); }
  }
  void jump(uint32_t n) // n steps at once: x -> m x + b, composed by repeated squaring from the most significant bit
  {
    uint32_t m = 1, b = 0; for (int bit = 31; bit >= 0; --bit) { b = m * b + b; m = m * m; if (n >> bit & 1) { b = step(b); m = 1664525u * m; } } x = m * x + b;
  }
  uint32_t next()
  {
    ++drawn; if (!portable) { for (unsigned i = 0; i < k; ++i) x = step(x); return x; }
    x = step(x); y = (uint32_t)(69069ull * y + inc); return x - y;
  }
  long double u() { return next() / 4294967296.0L; }
  template <class T> T ru(T *) { return T(next() / 4294967296.0); } template <class T> std::complex<T> ru(std::complex<T> *) { T r = ru((T *)0), i = ru((T *)0); return std::complex<T>(r, i); }
  template <class T> T rn(T *) { long double s = 0; for (int i = 0; i < 12; ++i) s += u(); return T(portable ? 6 - s : s - 6); }
  template <class T> std::complex<T> rn(std::complex<T> *) { long double a = 0, b = 0; for (int i = 0; i < 3; ++i) a += u(); for (int i = 0; i < 3; ++i) b += u(); return std::complex<T>(T(3 - b - a), T(a - b)); }
};
template <class T> struct sc { typedef T type; }; template <class T> struct sc<std::complex<T>> { typedef T type; };
template <class T> bool near_(T a, T b) { return std::abs(a - b) <= (sizeof(typename sc<T>::type) == 4 ? 2e-5 : 1e-13); }
template <class T> void check(pbt::Gen &g, T got, T want, bool uni, char const *what, size_t e)
{ REQUIRE(g, (uni ? got == want : near_(got, want)), what << ", element " << e << " is " << pbt::show(got) << ", the recurrence gives " << pbt::show(want)); }
template <class T> bool in01(T x) { return x >= 0 && x <= 1; } template <class T> bool in01(std::complex<T> x) { return in01(x.real()) && in01(x.imag()); }
struct Par { uint64_t seed, procs, id; bool portable; };
static Par par(pbt::Gen &g)
{
  Par p; p.seed = g.draw(4) == 0 ? g.pick({(uint64_t)0, (uint64_t)1, (uint64_t)0xffffffffull, (uint64_t)0x100000000ull, (uint64_t)0x80000000ull}) : g.draw(1ull << (1 + g.draw(40))); p.portable = g.flip();
  p.procs = g.pick({(uint64_t)1, (uint64_t)2, (uint64_t)3, (uint64_t)4, (uint64_t)6, (uint64_t)8, (uint64_t)16, (uint64_t)(1 + g.draw(100)), (uint64_t)(1 + g.draw(100))}); p.id = 1 + g.draw(p.procs);
  g.note() << "seed " << p.seed << ", " << p.id << " of " << p.procs << (p.portable ? ", portable: " : ": "); g.label(p.portable ? "portable" : "non-portable"); return p;
}
// a history of draws of scalars and views
template <class T> void history(pbt::Gen &g)
{
  Par p = par(g); bool alone = p.procs == 1 && g.flip(); Rand<T> *r = alone ? new Rand<T>(p.seed, p.portable) : new Rand<T>(p.seed, p.procs, p.id, p.portable); std::unique_ptr<Rand<T>> own(r); Ref ref(p.seed, p.procs, p.id, p.portable); int kinds = 0;
  for (int n = 1 + g.draw(8); n--;)
  {
    int op = g.draw(8); bool uni = g.flip(); size_t a = 1 + g.draw(9), b = 1 + g.draw(7), c = 1 + g.draw(4); auto want = [&](size_t n) { std::vector<T> w; for (size_t i = 0; i < n; ++i) w.push_back(uni ? ref.ru((T *)0) : ref.rn((T *)0)); return w; }; kinds |= 1 << op; g.note() << (uni ? 'u' : 'n') << op << ' ';
    if (op == 0) { auto w = want(a); for (size_t i = 0; i < a; ++i) { T x = uni ? r->randu() : r->randn(); check(g, x, w[i], uni, "a scalar", i); if (uni) REQUIRE(g, in01(x), "not within 0..1"); } }
    else if (op == 1) { Vector<T> v(a); if (uni) v = r->randu(a); else v = r->randn(a); auto w = want(a); for (size_t i = 0; i < a; ++i) check(g, v.get(i), w[i], uni, "a vector", i); }
    else if (op == 2) { Matrix<T> v(a, b); if (uni) v = r->randu(a, b); else v = r->randn(a, b); auto w = want(a * b); for (size_t i = 0; i < a * b; ++i) check(g, v.get(i / b, i % b), w[i], uni, "a matrix", i); }
    else if (op == 3) { Tensor<T> v(a, b, c); if (uni) v = r->randu(a, b, c); else v = r->randn(a, b, c); auto w = want(a * b * c); for (size_t i = 0; i < a * b * c; ++i) check(g, v.get(i / (b * c), i / c % b, i % c), w[i], uni, "a tensor", i); }
    else if (op == 4) { Vector<T> v(2 * a + 1, T(5)); if (uni) v(Domain<1>(1, 2, a)) = T(2) * r->randu(a); else v(Domain<1>(1, 2, a)) = T(2) * r->randn(a); auto w = want(a); for (size_t i = 0; i < a; ++i) check(g, T(v.get(2 * i + 1) / T(2)), w[i], uni, "part of a vector", i); }
    else if (op == 5) { auto x = uni ? r->randu() : r->randn(); auto w = want(1); check(g, T(x), w[0], uni, "a scalar", 0); }
    else
    { // into other orders and formats: as many numbers, each element its own
      auto w = want(a * b); std::vector<T> got; auto take = [&](auto &v) { if (uni) v = r->randu(a, b); else v = r->randn(a, b); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) got.push_back(v.get(i, j)); };
      if (op == 6) { Matrix<T, Dense<2, T, col2_type>> v(a, b); take(v); } else { Matrix<T> v(2 * a, 3 * b, T()); auto s = v(Domain<2>(Domain<1>(0, 2, a), Domain<1>(1, 2, b))); take(s); }
      auto less = [](T x, T y) { return std::real(x) < std::real(y) || (std::real(x) == std::real(y) && std::imag(x) < std::imag(y)); }; std::sort(got.begin(), got.end(), less); std::sort(w.begin(), w.end(), less); if (uni) for (size_t i = 0; i < w.size(); ++i) check(g, got[i], w[i], uni, "a matrix laid out differently, sorted", i);
    }
  }
  if (kinds & (kinds - 1)) g.nontrivial(); else g.label("one kind of draw");
}
PROP(rand_float, 40000, 600000) { history<float>(g); }
PROP(rand_double, 40000, 600000) { history<double>(g); }
PROP(rand_cfloat, 40000, 600000) { history<cf>(g); }
PROP(rand_cdouble, 40000, 600000) { history<cd>(g); }
// the generators of a group: equal if made equal, and non-portable ones deal out one sequence in turn
PROP(rand_group, 20000, 300000)
{
  Par p = par(g); size_t len = 1 + g.draw(12); std::vector<std::vector<double>> all;
  for (uint64_t id = 1; id <= p.procs; ++id) { Rand<double> a(p.seed, p.procs, id, p.portable), b(p.seed, p.procs, id, p.portable); Vector<double> v(len); v = b.randu(len); std::vector<double> w; for (size_t i = 0; i < len; ++i) { w.push_back(a.randu()); REQUIRE(g, w[i] == v.get(i), "equal generators differ at " << i); } all.push_back(w); }
  if (!p.portable)
  { // number (k, id) of the group is number k * procs + id of the serial one
    Rand<double> s(p.seed, false); for (uint64_t i = 1; i < p.procs; ++i) s.randu(); // serial: values from step 2, the group's: from step procs + 1
    for (size_t k = 0; k < len; ++k) for (uint64_t id = 0; id < p.procs; ++id) { double x = s.randu(); REQUIRE(g, all[id][k] == x, "value " << k << " of generator " << id + 1 << " is " << all[id][k] << ", the serial sequence has " << x); }
  }
  else for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i && len > 1; ++j) REQUIRE(g, all[i] != all[j], "generators " << i + 1 << " and " << j + 1 << " are the same");
  if (p.procs > 1) g.nontrivial();
}

// A small property-based-testing engine (choice-sequence based, as in Hypothesis).
//
// A case is a finite sequence of bounded integers ("choices"). A property is a function of a
// Gen, from which it draws everything it needs. Random generation, replay, shrinking and the
// coverage-guided (libFuzzer) driver all work on the choice sequence, so a case is a pure function
// of its choices, and the choices are a pure function of (seed, property, case number).
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <complex>
#include <initializer_list>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt
{
struct Failure { std::string msg; };
struct Discard {};

inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

class Gen
{
public:
  enum Mode { random, replay, bytes };
  Mode mode = random;
  uint64_t state = 0;                // random
  std::vector<uint64_t> choices;     // drawn so far (random, bytes) / to replay
  std::vector<uint64_t> used;        // the normalized choices of this execution
  size_t pos = 0;
  uint8_t const *data = 0; size_t size_ = 0;
  bool allow_known = false;          // do not exclude known findings
  bool nontrivial_ = false;
  bool notes_on = false;
  bool soft = false;                 // record failures, do not throw (MPI)
  bool failed = false;
  std::string fail_msg;
  std::vector<std::string> labels;
  std::ostringstream notes;
  void (*on_draw)(Gen &, uint64_t) = 0;

  // A value in [0,n). Shrinks towards 0.
  uint64_t draw(uint64_t n)
  {
    uint64_t v;
    if (n <= 1) v = 0;
    else if (mode == replay) v = pos < choices.size() ? choices[pos] % n : 0;
    else if (mode == random) { state += 0x9e3779b97f4a7c15ULL; v = (uint64_t)(((unsigned __int128)mix(state) * n) >> 64); }
    else
    {
      unsigned w = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
      v = 0;
      while (w--) v = (v << 8) | (pos_b < size_ ? data[pos_b++] : 0);
      v %= n;
    }
    ++pos;
    used.push_back(v);
    if (on_draw) on_draw(*this, v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  bool flip(unsigned num = 1, unsigned den = 2) { return draw(den) >= den - num; }
  template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  template <typename T> T const &pick(std::vector<T> const &l) { return l[draw(l.size())]; }
  // A size in [lo,hi], mostly small, sometimes next to a power of two or anywhere.
  size_t len(size_t lo, size_t hi)
  {
    if (hi <= lo) return lo;
    size_t v;
    uint64_t k = draw(8);
    size_t span = hi - lo + 1;
    if (k < 4) v = lo + draw(span < 8 ? span : 8);
    else if (k < 6) { v = lo + draw(span < 24 ? span : 24); }
    else if (k < 7) { int e = (int)range(1, 12); int64_t t = ((int64_t)1 << e) + range(-1, 1); v = t < (int64_t)lo ? lo : (size_t)t > hi ? hi : (size_t)t; }
    else v = lo + draw(span);
    return v;
  }
  // Rarely, a size well beyond the usual ones: next to a power of two, a multiple of 16, or anywhere up to hi.
  size_t large(size_t n, size_t hi, unsigned den = 80)
  {
    if (!flip(1, den) || hi < 32) return n;
    label("large size");
    switch (draw(3))
    {
    case 0: { int e = 5; while ((2u << e) <= hi && flip(5, 6)) ++e; size_t v = ((size_t)1 << e) + range(-1, 1); return v < hi ? v : hi; }
    case 1: return 16 * range(2, hi / 16);
    default: return range(24, hi);
    }
  }
  // One of the sizes of a shape large, or all of them larger than usual.
  void large(std::initializer_list<size_t *> n, size_t hi, size_t all, unsigned den = 80)
  {
    if (!flip(1, den)) return;
    if (flip()) { label("large size"); for (auto p : n) *p = all / 2 + draw(all / 2 + 1); }
    else { size_t k = draw(n.size()), i = 0; for (auto p : n) { if (i++ == k) *p = large(hi, hi, 1); else if (*p > 12) *p = 1 + *p % 12; } }
  }
  void label(std::string const &l) { labels.push_back(l); }
  void nontrivial() { nontrivial_ = true; }
  std::ostream &note() { if (!notes_on) notes.setstate(std::ios::failbit); return notes; }
  void fail(std::string const &m)
  {
    if (!failed) { failed = true; fail_msg = m; }
    if (!soft) throw Failure{m};
  }
  void discard() { throw Discard(); }
  // fresh 64-bit seed for derived data; 0 is the simplest
  uint64_t dataseed() { return draw(1u << 16); }
private:
  size_t pos_b = 0;
};

struct PropInfo { char const *name; void (*fn)(Gen &); unsigned quick; unsigned thorough; };
std::vector<PropInfo> &props();
struct Register { Register(char const *n, void (*f)(Gen &), unsigned q, unsigned t) { props().push_back({n, f, q, t}); } };

// Deterministic data derived from one choice: kinds
enum Data_kind { ramp, small_int, signed_int, real_unit, real_wide };
inline double datum(uint64_t seed, uint64_t i, Data_kind k)
{
  uint64_t h = mix(seed * 0x100000001b3ULL + i * 0x9e3779b97f4a7c15ULL + 12345);
  switch (k)
  {
    case ramp: return (double)(i + 1);
    case small_int: return (double)(h % 10);
    case signed_int: return (double)((int64_t)(h % 19) - 9);
    case real_unit: return (double)(h >> 11) * (2.0 / 9007199254740992.0) - 1.0;
    case real_wide:
    {
      double m = (double)(h >> 11) * (2.0 / 9007199254740992.0) - 1.0;
      int e = (int)(mix(h) % 13) - 6;
      return std::ldexp(m, e * 2);
    }
  }
  return 0;
}
template <typename T> struct make { static T from(uint64_t s, uint64_t i, Data_kind k) { return (T)datum(s, i, k); } };
template <typename T> struct make<std::complex<T>>
{ static std::complex<T> from(uint64_t s, uint64_t i, Data_kind k) { return std::complex<T>((T)datum(s, 2 * i, k), (T)datum(s, 2 * i + 1, k)); } };
template <> struct make<bool> { static bool from(uint64_t s, uint64_t i, Data_kind k) { return k == ramp ? i % 3 == 0 : ((uint64_t)(int64_t)(datum(s, i, small_int)) & 1); } };

template <typename T> std::string show(T const &v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string show(signed char v) { return show((int)v); }
inline std::string show(unsigned char v) { return show((int)v); }
inline std::string show(char v) { return show((int)v); }

// equal, or both NaN
template <typename T> inline bool same(T a, T b) { return a == b || (a != a && b != b); }
template <typename T> inline bool same(std::complex<T> a, std::complex<T> b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }

} // namespace pbt

#define PROP(name, quick, thorough)                                     \
  static void name(pbt::Gen &g);                                        \
  static pbt::Register reg_##name(#name, &name, quick, thorough);       \
  static void name(pbt::Gen &g OVXX_UNUSED_)
#define OVXX_UNUSED_ __attribute__((unused))
#define REQUIRE(g, cond, text)                                          \
  do { if (!(cond)) { std::ostringstream o_; o_.precision(17);          \
      o_ << text << "   [" #cond "] " << __FILE__ << ':' << __LINE__;   \
      (g).fail(o_.str()); } } while (0)
#endif

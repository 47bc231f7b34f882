// C22 histogram
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/signal.hpp>
#include "views.hpp"
using namespace pv;
// Ranges and values are integers over `unit`, so that the bin of a value is decided exactly by the definition
// bin i (1 <= i <= n-2) counts min + (i-1)*(max-min)/(n-2) <= x < min + i*(max-min)/(n-2).
struct Range { long lo, hi, unit; size_t bins; };
template <class T> Range range(pbt::Gen &g)
{
  Range r; r.unit = std::is_integral<T>::value ? 1 : 16; r.bins = g.pick({(size_t)3, (size_t)4, g.large(3 + g.draw(30), 600, 40), (size_t)(3 + g.draw(8))}); r.lo = g.range(-60, 60) * (g.flip() ? 1 : r.unit / 4 + 1);
  if (!std::is_integral<T>::value || g.flip(1, 3)) r.hi = r.lo + (long)(r.bins - 2) * (1 + (long)g.draw(12)); else r.hi = r.lo + 1 + g.draw(90);
  return r;
}
inline size_t bin(Range const &r, long v) { if (v < r.lo) return 0; if (v >= r.hi) return r.bins - 1; return (size_t)((v - r.lo) * (long)(r.bins - 2) / (r.hi - r.lo)) + 1; }
template <class T> Arr<long> values(pbt::Gen &g, Range const &r, size_t n, size_t m)
{
  uint64_t s = g.dataseed(); Arr<long> a(n, m); long w = r.hi - r.lo;
  for (size_t i = 0; i < n * m; ++i) { uint64_t h = pbt::mix(s + i); long q = (long)(h >> 8); if (q < 0) q = -q;
    switch (h % 8) { case 0: a.v[i] = r.lo - q % 3; break; case 1: a.v[i] = r.hi - q % 3 + 1; break; case 2: a.v[i] = r.lo + w * (q % (long)(r.bins - 1)) / (long)(r.bins - 2); break; case 3: a.v[i] = r.lo - w + q % (3 * w); break; default: a.v[i] = r.lo + q % w; } }
  return a;
}
template <class T> Arr<T> scaled(Arr<long> const &a, long unit) { Arr<T> r(a.n[0], a.n[1]); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = T(a.v[i]) / T(unit); return r; }
template <class T, class H, int VM, int MM> void calls(pbt::Gen &g, H &h, Range const &r, std::vector<long> want)
{
  size_t steps = 1 + g.draw(4); size_t used = 0;
  for (size_t s = 0; s < steps; ++s)
  {
    bool acc = g.flip(2, 3), given = acc || g.flip(); size_t n, m = 1; bool mat = g.flip(); if (mat) { n = 1 + g.draw(9); m = 1 + g.draw(9); } else n = 1 + g.draw(40);
    Arr<long> x = values<T>(g, r, n, m); Arr<T> a = scaled<T>(x, r.unit); if (!acc) std::fill(want.begin(), want.end(), 0); for (long v : x.v) ++want[bin(r, v)]; g.note() << (acc ? " +" : " =");
    auto look = [&](auto &v) { v.set(a); g.note() << v.kind; const_Vector<int> got = given ? h(v.view, acc) : h(v.view); REQUIRE(g, got.size() == r.bins, "the histogram has " << got.size() << " bins, not " << r.bins);
      for (size_t b = 0; b < r.bins; ++b) REQUIRE(g, got.get(b) == want[b], "call " << s << ": bin " << b << " counts " << got.get(b) << ", not " << want[b]); v.holds(g, a, "the input"); };
    if (mat) with_matrix<T, MM>(g, n, m, look); else with_vector<T, VM>(g, n, look);
  }
  for (size_t b = 1; b + 1 < r.bins; ++b) used += want[b] != 0; if (used && (want[0] || want.back())) g.nontrivial(); g.label(steps > 1 ? "several calls" : "one call");
}
template <class T, template <class, class> class V, int VM, int MM> void histogram(pbt::Gen &g)
{
  Range r = range<T>(g); g.note() << r.bins << " bins of " << r.lo << ".." << r.hi << " over " << r.unit; T lo = T(r.lo) / T(r.unit), hi = T(r.hi) / T(r.unit); std::vector<long> want(r.bins, 0);
  if (g.flip(2, 3)) { Histogram<V, T> h(lo, hi, r.bins); calls<T, Histogram<V, T>, VM, MM>(g, h, r, want); }
  else { Vector<int> first(r.bins); for (size_t b = 0; b < r.bins; ++b) first.put(b, want[b] = g.draw(50)); const_Vector<int> cf = first; Histogram<V, T> h(lo, hi, cf); calls<T, Histogram<V, T>, VM, MM>(g, h, r, want); for (size_t b = 0; b < r.bins; ++b) REQUIRE(g, first.get(b) >= 0 && first.get(b) < 50, "the initial counts were changed"); }
}
PROP(c22_histogram_float, 1500, 40000) { histogram<float, const_Vector, V_all, M_basic>(g); }
PROP(c22_histogram_double, 1500, 40000) { histogram<double, const_Matrix, V_basic, M_all>(g); }
PROP(c22_histogram_int, 2500, 60000) { histogram<int, const_Vector, V_basic, M_basic>(g); }
PROP(c22_histogram_long, 1500, 40000) { histogram<long, const_Matrix, V_dense | V_subset, M_row | M_col | M_subset>(g); }
PROP(c22_histogram_inexact, 1500, 40000)
{
  // bin widths that are not representable: values kept away from the edges between bins
  size_t bins = 3 + g.draw(60); float lo = (float)g.range(-5000, 5000) / 977.f, w = (float)(1 + g.draw(5000)) / 613.f, hi = lo + w; size_t n = 1 + g.draw(60); uint64_t s = g.dataseed(); g.note() << bins << " bins of " << lo << ".." << hi;
  Vector<float> v(n); std::vector<int> want(bins, 0);
  for (size_t i = 0; i < n; ++i) { uint64_t h = pbt::mix(s + i); size_t b = h % bins; double d = ((double)hi - lo) / (bins - 2), f = 0.1 + 0.8 * ((h >> 20) % 1000) / 1000.; double x = b == 0 ? lo - f * w : b == bins - 1 ? hi + f * w : lo + (b - 1 + f) * d; v.put(i, (float)x); ++want[b]; }
  Histogram<const_Vector, float> h(lo, hi, bins); const_Vector<int> got = h(v); for (size_t b = 0; b < bins; ++b) REQUIRE(g, got.get(b) == want[b], "bin " << b << " counts " << got.get(b) << ", not " << want[b]); if (bins > 4 && n > 4) g.nontrivial();
}

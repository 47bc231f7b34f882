#include <vsip/math.hpp>
#include <vsip/complex.hpp>
#include "views.hpp"
using namespace pv;
template <class T> struct ufn { T operator()(T x) const { return x + x + T(1); } };
template <class T> void put(T &r, int x, int) { r = (T)x; }
template <class T> void put(std::complex<T> &r, int x, int y) { r = std::complex<T>((T)x, (T)y); }
template <class T> Arr<T> leafdata(pbt::Gen &g, size_t a, size_t b, size_t c, bool div)
{
  typedef typename is_cplx<T>::real U0; (void)sizeof(U0);
  uint64_t s = g.dataseed(); Arr<T> r(a, b, c); static int const d[] = {1, -1, 2, -2, 4};
  for (size_t i = 0; i < r.v.size(); ++i) { uint64_t h = pbt::mix(s * 131 + i); int x = div ? d[h % 5] : (int)(h % 7) - 3, y = (int)((h >> 20) % 7) - 3; (void)y;
    r.v[i] = pbt::make<T>::from(0, 0, pbt::ramp); put(r.v[i], x, y); }
  return r;
}
template <class T> Arr<T> leafdata(pbt::Gen &g, size_t a, bool div) { return leafdata<T>(g, a, 1, 1, div); }
template <class T> Arr<T> leafdata(pbt::Gen &g, size_t a, size_t b, bool div) { return leafdata<T>(g, a, b, 1, div); }
template <class T> void cmp(pbt::Gen &g, T a, T b) { REQUIRE(g, pbt::same(a, b), "element " << a << " of the expression, not " << b); }
template <class T, class S> void cmp(pbt::Gen &g, S a, T b) { cmp<T>(g, (T)a, b); }
template <class V, class T> void same(pbt::Gen &g, V const &v, Arr<T> const &w)
{ for (size_t i = 0; i < w.n[0]; ++i) for (size_t j = 0; j < w.n[1]; ++j) for (size_t k = 0; k < w.n[2]; ++k) cmp(g, vget(v, i, j, k), w.at(i, j, k)); }
// a sub-domain of [0,n)
inline Part part_of(pbt::Gen &g, size_t n)
{
  Part p; long s = g.pick<long>({1, 1, 2, 3, -1, -2}); size_t a = s < 0 ? -s : s; size_t l = 1 + g.draw((n - 1) / a + 1), f = g.draw(n - (l - 1) * a);
  p.extent = n; p.dom = Domain<1>(s < 0 ? f + (l - 1) * a : f, s, l); return p;
}

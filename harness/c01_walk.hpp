// C01: composed subviews against an index map. Included by units that pick the base blocks.
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include "pbt.hpp"
#include <functional>
using namespace vsip;

namespace c01
{
// Element references to rows, columns and slices of split-complex blocks do not compile; units with such blocks define C01_NOREF.
#ifdef C01_NOREF
#define VIA_REF(a, b) b
#else
#define VIA_REF(a, b) a
#endif
struct Ref { size_t idx; int comp; };                 // element of the base, or its real (0) / imaginary (1) part
struct Map                                            // what a view denotes
{
  unsigned d; size_t n[3]; std::vector<Ref> r;
  Ref &at(size_t i, size_t j = 0, size_t k = 0) { return r[(i * n[1] + j) * n[2] + k]; }
  Ref const &at(size_t i, size_t j = 0, size_t k = 0) const { return r[(i * n[1] + j) * n[2] + k]; }
  Map() {}
  Map(unsigned d_, size_t a, size_t b = 1, size_t c = 1) : d(d_), r(a * b * c) { n[0] = a; n[1] = b; n[2] = c; }
};

template <class T> struct Base                        // the root view, type erased
{
  std::vector<T> shadow; size_t n[3]; unsigned d;
  std::function<T(size_t, size_t, size_t)> get; std::function<void(size_t, size_t, size_t, T)> put;
};
template <class T> struct is_cplx { enum { value = 0 }; };
template <class T> struct is_cplx<std::complex<T>> { enum { value = 1 }; };

// reading and writing the shadow as the view's own type
template <class T> T sh_get(std::vector<T> const &s, Ref r, T *) { return s[r.idx]; }
template <class T> T sh_get(std::vector<std::complex<T>> const &s, Ref r, T *) { return r.comp ? s[r.idx].imag() : s[r.idx].real(); }
template <class T> void sh_put(std::vector<T> &s, Ref r, T v) { s[r.idx] = v; }
template <class T> void sh_put(std::vector<std::complex<T>> &s, Ref r, T v) { if (r.comp) s[r.idx].imag(v); else s[r.idx].real(v); }

template <class S> struct fresh { static S v(unsigned &c) { ++c; return (S)(c % 100 + (sizeof(S) > 1 ? 1000 : 0)); } };
template <class S> struct fresh<std::complex<S>> { static std::complex<S> v(unsigned &c) { ++c; return std::complex<S>(c + 1000, c + 5000); } };

// the view, type erased
template <class S> struct Any
{
  virtual ~Any() {}
  virtual size_t size() = 0; virtual size_t size(unsigned d) = 0;
  virtual S get(size_t i, size_t j, size_t k) = 0;
  virtual S ref(size_t i, size_t j, size_t k) = 0;              // through operator()
  virtual S cref(size_t i, size_t j, size_t k) = 0;             // through operator() of the const view
  virtual void put(size_t i, size_t j, size_t k, S v) = 0;
  virtual void set(size_t i, size_t j, size_t k, S v) = 0;      // view(i) = v
  virtual void add(size_t i, size_t j, size_t k, S v) = 0;      // view(i) += v
  virtual void fill(S v) = 0;
  virtual void store(std::vector<S> const &) = 0;               // view = dense
  virtual void load(std::vector<S> &) = 0;                      // dense = view
};
template <class V, class S> struct Any1 : Any<S>
{
  V v; Any1(V const &x) : v(x) {}
  size_t size() { return v.size(); } size_t size(unsigned d) { return v.size(d); }
  S get(size_t i, size_t, size_t) { return v.get(i); }
  S ref(size_t i, size_t, size_t) { return VIA_REF((v(i)), (v.get(i))); }
  S cref(size_t i, size_t, size_t) { typename ViewConversion<Vector, S, typename V::block_type>::const_view_type c(v.block()); return VIA_REF((c(i)), (c.get(i))); }
  void put(size_t i, size_t, size_t, S x) { v.put(i, x); }
  void set(size_t i, size_t, size_t, S x) { VIA_REF((v(i) = x), (v.put(i, x))); }
  void add(size_t i, size_t, size_t, S x) { VIA_REF((v(i) += x), (v.put(i, v.get(i) + x))); }
  void fill(S x) { v = x; }
  void store(std::vector<S> const &d) { Vector<S> w(v.size()); for (index_type i = 0; i < v.size(); ++i) w.put(i, d[i]); v = w; }
  void load(std::vector<S> &d) { Vector<S> w(v.size(), S()); w = v; for (index_type i = 0; i < v.size(); ++i) d[i] = w.get(i); }
};
template <class V, class S> struct Any2 : Any<S>
{
  V v; Any2(V const &x) : v(x) {}
  size_t size() { return v.size(); } size_t size(unsigned d) { return v.size(d); }
  S get(size_t i, size_t j, size_t) { return v.get(i, j); }
  S ref(size_t i, size_t j, size_t) { return VIA_REF((v(i, j)), (v.get(i, j))); }
  S cref(size_t i, size_t j, size_t) { typename ViewConversion<Matrix, S, typename V::block_type>::const_view_type c(v.block()); return VIA_REF((c(i, j)), (c.get(i, j))); }
  void put(size_t i, size_t j, size_t, S x) { v.put(i, j, x); }
  void set(size_t i, size_t j, size_t, S x) { VIA_REF((v(i, j) = x), (v.put(i, j, x))); }
  void add(size_t i, size_t j, size_t, S x) { VIA_REF((v(i, j) += x), (v.put(i, j, v.get(i, j) + x))); }
  void fill(S x) { v = x; }
  void store(std::vector<S> const &d)
  { Matrix<S> w(v.size(0), v.size(1)); for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) w.put(i, j, d[i * v.size(1) + j]); v = w; }
  void load(std::vector<S> &d)
  { Matrix<S> w(v.size(0), v.size(1), S()); w = v; for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) d[i * v.size(1) + j] = w.get(i, j); }
};
template <class V, class S> struct Any3 : Any<S>
{
  V v; Any3(V const &x) : v(x) {}
  size_t size() { return v.size(); } size_t size(unsigned d) { return v.size(d); }
  S get(size_t i, size_t j, size_t k) { return v.get(i, j, k); }
  S ref(size_t i, size_t j, size_t k) { return VIA_REF((v(i, j, k)), (v.get(i, j, k))); }
  S cref(size_t i, size_t j, size_t k) { typename ViewConversion<Tensor, S, typename V::block_type>::const_view_type c(v.block()); return VIA_REF((c(i, j, k)), (c.get(i, j, k))); }
  void put(size_t i, size_t j, size_t k, S x) { v.put(i, j, k, x); }
  void set(size_t i, size_t j, size_t k, S x) { VIA_REF((v(i, j, k) = x), (v.put(i, j, k, x))); }
  void add(size_t i, size_t j, size_t k, S x) { VIA_REF((v(i, j, k) += x), (v.put(i, j, k, v.get(i, j, k) + x))); }
  void fill(S x) { v = x; }
  size_t at(size_t i, size_t j, size_t k) { return (i * v.size(1) + j) * v.size(2) + k; }
  void store(std::vector<S> const &d)
  { Tensor<S> w(v.size(0), v.size(1), v.size(2));
    for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) w.put(i, j, k, d[at(i, j, k)]); v = w; }
  void load(std::vector<S> &d)
  { Tensor<S> w(v.size(0), v.size(1), v.size(2), S()); w = v;
    for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) d[at(i, j, k)] = w.get(i, j, k); }
};

template <class S, class T>
void check(pbt::Gen &g, Any<S> &a, Map const &m, Base<T> &b)
{
  for (unsigned d = 0; d < m.d; ++d) REQUIRE(g, a.size(d) == m.n[d], "size(" << d << ") is " << a.size(d) << ", not " << m.n[d]);
  REQUIRE(g, a.size() == m.r.size(), "size() is " << a.size() << ", not " << m.r.size());
  unsigned c = 0;
  auto reads = [&](char const *when) {
    for (size_t i = 0; i < m.n[0]; ++i) for (size_t j = 0; j < m.n[1]; ++j) for (size_t k = 0; k < m.n[2]; ++k)
    {
      S want = sh_get(b.shadow, m.at(i, j, k), (S *)0);
      S got = a.get(i, j, k);
      REQUIRE(g, got == want, when << ": get(" << i << "," << j << "," << k << ") is " << pbt::show(got) << ", not " << pbt::show(want));
      got = a.ref(i, j, k);
      REQUIRE(g, got == want, when << ": view(" << i << "," << j << "," << k << ") is " << pbt::show(got) << ", not " << pbt::show(want));
      got = a.cref(i, j, k);
      REQUIRE(g, got == want, when << ": const view(" << i << "," << j << "," << k << ") is " << pbt::show(got) << ", not " << pbt::show(want));
    } };
  auto base = [&](char const *when) {
    size_t x = 0;
    for (size_t i = 0; i < b.n[0]; ++i) for (size_t j = 0; j < b.n[1]; ++j) for (size_t k = 0; k < b.n[2]; ++k, ++x)
    {
      T got = b.get(i, j, k);
      REQUIRE(g, got == b.shadow[x], when << ": original(" << i << "," << j << "," << k << ") is " << pbt::show(got) << ", not " << pbt::show(b.shadow[x]));
    } };
  reads("as made");
  size_t n = m.r.size();
  unsigned ops = g.range(1, 4);
  for (unsigned o = 0; o < ops; ++o)
  {
    size_t e = g.draw(n), i = e / (m.n[1] * m.n[2]), j = e / m.n[2] % m.n[1], k = e % m.n[2];
    switch (g.draw(7))
    {
      case 0: { S v = fresh<S>::v(c); a.put(i, j, k, v); sh_put(b.shadow, m.r[e], v); g.note() << "; put"; base("after put"); break; }
      case 1: { S v = fresh<S>::v(c); a.set(i, j, k, v); sh_put(b.shadow, m.r[e], v); g.note() << "; view(i)=x"; base("after view(i)=x"); break; }
      case 2: { S v = fresh<S>::v(c); a.add(i, j, k, v); sh_put(b.shadow, m.r[e], (S)(sh_get(b.shadow, m.r[e], (S *)0) + v)); g.note() << "; view(i)+=x"; base("after view(i)+=x"); break; }
      case 3: { S v = fresh<S>::v(c); a.fill(v); for (auto &r : m.r) sh_put(b.shadow, r, v); g.note() << "; =scalar"; base("after =scalar"); break; }
      case 4: { std::vector<S> d(n); for (auto &x : d) x = fresh<S>::v(c); a.store(d); for (size_t q = 0; q < n; ++q) sh_put(b.shadow, m.r[q], d[q]); g.note() << "; =view"; base("after =view"); break; }
      case 5:
      {
        std::vector<S> d(n); a.load(d); g.note() << "; copied out";
        for (size_t q = 0; q < n; ++q) REQUIRE(g, d[q] == sh_get(b.shadow, m.r[q], (S *)0), "copied out, element " << q << " is " << pbt::show(d[q]) << ", not " << pbt::show(sh_get(b.shadow, m.r[q], (S *)0)));
        base("after copying out");
        break;
      }
      default:
      {
        size_t x = m.r[e].idx; if (g.flip(1, 3)) x = g.draw(b.shadow.size());
        T v = fresh<T>::v(c); b.put(x / (b.n[1] * b.n[2]), x / b.n[2] % b.n[1], x % b.n[2], v); b.shadow[x] = v; g.note() << "; original written";
      }
    }
    reads("after an operation");
  }
}

// a domain within [0,n)
inline Domain<1> sub(pbt::Gen &g, size_t n)
{
  if (g.flip(1, 6)) return Domain<1>(n);
  size_t len = 1 + g.draw(n);
  size_t maxs = len > 1 ? (n - 1) / (len - 1) : 3;
  long s = 1 + g.draw(std::min<size_t>(maxs, 4));
  size_t span = (len - 1) * s + 1;
  size_t first = g.draw(n - span + 1);
  if (g.flip(1, 3)) { first += (len - 1) * s; s = -s; }
  return Domain<1>(first, s, len);
}
inline size_t nth(Domain<1> const &d, size_t i) { return d.first() + (ptrdiff_t)d.stride() * (ptrdiff_t)i; }
inline std::ostream &operator<<(std::ostream &o, Domain<1> const &d) { return o << "[" << d.first() << "," << d.stride() << "," << d.size() << "]"; }

#define LEAF(ANY) do { ANY<V, S> a(v); g.note() << " : "; check<S, T>(g, a, m, b); return; } while (0)

// Depth is the number of further view types allowed (bounds the instantiations, not the generality)
template <int Depth, class T, class S, class B> void walk1(pbt::Gen &g, Vector<S, B> v, Map const &m, Base<T> &b, int done);
template <int Depth, class T, class S, class B> void walk2(pbt::Gen &g, Matrix<S, B> v, Map const &m, Base<T> &b, int done);
template <int Depth, class T, class S, class B> void walk3(pbt::Gen &g, Tensor<S, B> v, Map const &m, Base<T> &b, int done);

template <int Depth, class T, class S, class B, bool C = is_cplx<S>::value && (Depth > 0)> struct parts
{
  template <class V> static void go(pbt::Gen &, V &, Map const &, Base<T> &, int, bool) {}
  enum { any = 0 };
};
template <int D, int Depth, class T> struct walk_any;
template <int Depth, class T> struct walk_any<1, Depth, T> { template <class S, class B> static void go(pbt::Gen &g, Vector<S, B> v, Map const &m, Base<T> &b, int n) { walk1<Depth, T>(g, v, m, b, n); } };
template <int Depth, class T> struct walk_any<2, Depth, T> { template <class S, class B> static void go(pbt::Gen &g, Matrix<S, B> v, Map const &m, Base<T> &b, int n) { walk2<Depth, T>(g, v, m, b, n); } };
template <int Depth, class T> struct walk_any<3, Depth, T> { template <class S, class B> static void go(pbt::Gen &g, Tensor<S, B> v, Map const &m, Base<T> &b, int n) { walk3<Depth, T>(g, v, m, b, n); } };
template <int Depth, class T, class S, class B> struct parts<Depth, T, S, B, true>
{
  enum { any = 1 };
  template <class V> static void go(pbt::Gen &g, V &v, Map const &m, Base<T> &b, int done, bool im)
  {
    Map q(m); for (auto &r : q.r) r.comp = im;
    g.note() << (im ? ".imag()" : ".real()"); g.label(im ? "imag" : "real");
    if (im) walk_any<V::dim, Depth - 1, T>::go(g, v.imag(), q, b, done + 1);
    else walk_any<V::dim, Depth - 1, T>::go(g, v.real(), q, b, done + 1);
  }
};

inline void finish(pbt::Gen &g, int done) { if (done >= 2) g.nontrivial(); g.label("depth " + std::to_string(done)); }

template <int Depth, bool ok = (Depth > 0)> struct more1
{ template <class T, class S, class B> static bool go(pbt::Gen &, Vector<S, B> &, Map const &, Base<T> &, int) { return false; } };
template <int Depth> struct more1<Depth, true>
{
  template <class T, class S, class B> static bool go(pbt::Gen &g, Vector<S, B> &v, Map const &m, Base<T> &b, int done)
  {
    unsigned k = g.draw(parts<Depth, T, S, B>::any ? 5 : 3);
    if (k == 0) return false;
    if (k < 3)
    {
      Domain<1> d = sub(g, m.n[0]); Map q(1, d.size());
      for (size_t i = 0; i < d.size(); ++i) q.at(i) = m.at(nth(d, i));
      g.note() << "(" << d << ")"; g.label(d.stride() < 0 ? "subset1, negative stride" : "subset1");
      walk1<Depth - 1, T>(g, v(d), q, b, done + 1);
      return true;
    }
    parts<Depth, T, S, B>::go(g, v, m, b, done, k == 4);
    return true;
  }
};
template <int Depth, class T, class S, class B> void walk1(pbt::Gen &g, Vector<S, B> v, Map const &m, Base<T> &b, int done)
{
  typedef Vector<S, B> V;
  if (more1<Depth>::template go<T>(g, v, m, b, done)) return;
  finish(g, done);
  LEAF(Any1);
}

template <int Depth, bool ok = (Depth > 0)> struct more2
{ template <class T, class S, class B> static bool go(pbt::Gen &, Matrix<S, B> &, Map const &, Base<T> &, int) { return false; } };
template <int Depth> struct more2<Depth, true>
{
  template <class T, class S, class B> static bool go(pbt::Gen &g, Matrix<S, B> &v, Map const &m, Base<T> &b, int done)
  {
    unsigned k = g.draw(parts<Depth, T, S, B>::any ? 9 : 7);
    switch (k)
    {
      case 0: return false;
      case 1: case 2:
      {
        Domain<1> x = sub(g, m.n[0]), y = sub(g, m.n[1]); Map q(2, x.size(), y.size());
        for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) q.at(i, j) = m.at(nth(x, i), nth(y, j));
        g.note() << "(" << x << y << ")"; g.label(x.stride() < 0 || y.stride() < 0 ? "subset2, negative stride" : "subset2");
        walk2<Depth - 1, T>(g, v(Domain<2>(x, y)), q, b, done + 1);
        return true;
      }
      case 3:
      {
        Map q(2, m.n[1], m.n[0]);
        for (size_t i = 0; i < q.n[0]; ++i) for (size_t j = 0; j < q.n[1]; ++j) q.at(i, j) = m.at(j, i);
        g.note() << ".transpose()"; g.label("transpose");
        walk2<Depth - 1, T>(g, v.transpose(), q, b, done + 1);
        return true;
      }
      case 4:
      {
        size_t r = g.draw(m.n[0]); Map q(1, m.n[1]);
        for (size_t i = 0; i < q.n[0]; ++i) q.at(i) = m.at(r, i);
        g.note() << ".row(" << r << ")"; g.label("row");
        if (g.flip()) walk1<Depth - 1, T>(g, v.row(r), q, b, done + 1); else walk1<Depth - 1, T>(g, v(r, whole_domain), q, b, done + 1);
        return true;
      }
      case 5:
      {
        size_t c = g.draw(m.n[1]); Map q(1, m.n[0]);
        for (size_t i = 0; i < q.n[0]; ++i) q.at(i) = m.at(i, c);
        g.note() << ".col(" << c << ")"; g.label("col");
        if (g.flip()) walk1<Depth - 1, T>(g, v.col(c), q, b, done + 1); else walk1<Depth - 1, T>(g, v(whole_domain, c), q, b, done + 1);
        return true;
      }
      case 6:
      {
        long o = g.range(-(long)m.n[0] + 1, (long)m.n[1] - 1);
        size_t r0 = o < 0 ? -o : 0, c0 = o > 0 ? o : 0, len = std::min(m.n[0] - r0, m.n[1] - c0); Map q(1, len);
        for (size_t i = 0; i < len; ++i) q.at(i) = m.at(r0 + i, c0 + i);
        g.note() << ".diag(" << o << ")"; g.label("diag");
        walk1<Depth - 1, T>(g, v.diag(o), q, b, done + 1);
        return true;
      }
      default: parts<Depth, T, S, B>::go(g, v, m, b, done, k == 8); return true;
    }
  }
};
template <int Depth, class T, class S, class B> void walk2(pbt::Gen &g, Matrix<S, B> v, Map const &m, Base<T> &b, int done)
{
  typedef Matrix<S, B> V;
  if (more2<Depth>::template go<T>(g, v, m, b, done)) return;
  finish(g, done);
  LEAF(Any2);
}

template <int Depth, bool ok = (Depth > 0)> struct more3
{ template <class T, class S, class B> static bool go(pbt::Gen &, Tensor<S, B> &, Map const &, Base<T> &, int) { return false; } };
template <int Depth> struct more3<Depth, true>
{
  template <dimension_type D0, dimension_type D1, dimension_type D2, class T, class S, class B>
  static void perm(pbt::Gen &g, Tensor<S, B> &v, Map const &m, Base<T> &b, int done)
  {
    // transpose<D0,D1,D2>: result dimension x is the original's dimension Dx
    size_t p[3] = {D0, D1, D2}; Map q(3, m.n[D0], m.n[D1], m.n[D2]); size_t i[3];
    for (i[0] = 0; i[0] < q.n[0]; ++i[0]) for (i[1] = 0; i[1] < q.n[1]; ++i[1]) for (i[2] = 0; i[2] < q.n[2]; ++i[2])
    { size_t o[3]; for (int d = 0; d < 3; ++d) o[p[d]] = i[d]; q.at(i[0], i[1], i[2]) = m.at(o[0], o[1], o[2]); }
    g.note() << ".transpose<" << D0 << D1 << D2 << ">()"; g.label("permute");
    walk3<Depth - 1, T>(g, v.template transpose<D0, D1, D2>(), q, b, done + 1);
  }
  template <class T, class S, class B> static bool go(pbt::Gen &g, Tensor<S, B> &v, Map const &m, Base<T> &b, int done)
  {
    unsigned k = g.draw(parts<Depth, T, S, B>::any ? 12 : 10);
    switch (k)
    {
      case 0: return false;
      case 1: case 2:
      {
        Domain<1> x = sub(g, m.n[0]), y = sub(g, m.n[1]), z = sub(g, m.n[2]); Map q(3, x.size(), y.size(), z.size());
        for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) for (size_t l = 0; l < z.size(); ++l) q.at(i, j, l) = m.at(nth(x, i), nth(y, j), nth(z, l));
        g.note() << "(" << x << y << z << ")"; g.label("subset3");
        walk3<Depth - 1, T>(g, v(Domain<3>(x, y, z)), q, b, done + 1);
        return true;
      }
      case 3: case 4:
        switch (g.draw(6))
        {
          case 0: perm<0, 1, 2, T>(g, v, m, b, done); break; case 1: perm<0, 2, 1, T>(g, v, m, b, done); break; case 2: perm<1, 0, 2, T>(g, v, m, b, done); break;
          case 3: perm<1, 2, 0, T>(g, v, m, b, done); break; case 4: perm<2, 0, 1, T>(g, v, m, b, done); break; default: perm<2, 1, 0, T>(g, v, m, b, done);
        }
        return true;
      case 5: case 6: case 7:
      {
        int d = g.draw(3); size_t f = g.draw(m.n[d]); int a = d == 0 ? 1 : 0, c = d == 2 ? 1 : 2; bool whole = g.flip();
        Domain<1> x = whole ? Domain<1>(m.n[a]) : sub(g, m.n[a]), y = whole ? Domain<1>(m.n[c]) : sub(g, m.n[c]); Map q(2, x.size(), y.size());
        for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j)
        { size_t o[3]; o[d] = f; o[a] = nth(x, i); o[c] = nth(y, j); q.at(i, j) = m.at(o[0], o[1], o[2]); }
        g.note() << "(slice dim " << d << " at " << f << (whole ? " whole" : " part ") << x << y << ")"; g.label("matrix slice");
        if (whole)
          switch (d) { case 0: walk2<Depth - 1, T>(g, v(f, whole_domain, whole_domain), q, b, done + 1); break; case 1: walk2<Depth - 1, T>(g, v(whole_domain, f, whole_domain), q, b, done + 1); break;
            default: walk2<Depth - 1, T>(g, v(whole_domain, whole_domain, f), q, b, done + 1); }
        else
          switch (d) { case 0: walk2<Depth - 1, T>(g, v(f, x, y), q, b, done + 1); break; case 1: walk2<Depth - 1, T>(g, v(x, f, y), q, b, done + 1); break;
            default: walk2<Depth - 1, T>(g, v(x, y, f), q, b, done + 1); }
        return true;
      }
      case 8: case 9:
      {
        int d = g.draw(3); size_t o[3]; for (int x = 0; x < 3; ++x) o[x] = g.draw(m.n[x]); bool whole = g.flip();
        Domain<1> x = whole ? Domain<1>(m.n[d]) : sub(g, m.n[d]); Map q(1, x.size());
        size_t f[3] = {o[0], o[1], o[2]};
        for (size_t i = 0; i < x.size(); ++i) { o[d] = nth(x, i); q.at(i) = m.at(o[0], o[1], o[2]); }
        g.note() << "(vector along " << d << " at " << f[0] << "," << f[1] << "," << f[2] << (whole ? " whole" : " part ") << x << ")"; g.label("vector slice");
        if (whole)
          switch (d) { case 0: walk1<Depth - 1, T>(g, v(whole_domain, f[1], f[2]), q, b, done + 1); break; case 1: walk1<Depth - 1, T>(g, v(f[0], whole_domain, f[2]), q, b, done + 1); break;
            default: walk1<Depth - 1, T>(g, v(f[0], f[1], whole_domain), q, b, done + 1); }
        else
          switch (d) { case 0: walk1<Depth - 1, T>(g, v(x, f[1], f[2]), q, b, done + 1); break; case 1: walk1<Depth - 1, T>(g, v(f[0], x, f[2]), q, b, done + 1); break;
            default: walk1<Depth - 1, T>(g, v(f[0], f[1], x), q, b, done + 1); }
        return true;
      }
      default: parts<Depth, T, S, B>::go(g, v, m, b, done, k == 11); return true;
    }
  }
};
template <int Depth, class T, class S, class B> void walk3(pbt::Gen &g, Tensor<S, B> v, Map const &m, Base<T> &b, int done)
{
  typedef Tensor<S, B> V;
  if (more3<Depth>::template go<T>(g, v, m, b, done)) return;
  finish(g, done);
  LEAF(Any3);
}

template <class T> Map init(pbt::Gen &g, Base<T> &b, unsigned d)
{
  unsigned c = 0; Map m(d, b.n[0], b.n[1], b.n[2]);
  b.shadow.resize(m.r.size());
  for (size_t i = 0; i < m.r.size(); ++i) { m.r[i] = Ref{i, -1}; b.shadow[i] = fresh<T>::v(c); b.put(i / (b.n[1] * b.n[2]), i / b.n[2] % b.n[1], i % b.n[2], b.shadow[i]); }
  return m;
}
template <int Depth, class B> void vec(pbt::Gen &g)
{
  typedef typename B::value_type T;
  Base<T> b; b.d = 1; b.n[0] = g.large(g.len(1, 40), 2000); b.n[1] = b.n[2] = 1;
  g.note() << "vector " << b.n[0] << " ";
  Vector<T, B> v(b.n[0]);
  b.get = [&](size_t i, size_t, size_t) { return v.get(i); }; b.put = [&](size_t i, size_t, size_t, T x) { v.put(i, x); };
  Map m = init(g, b, 1);
  walk1<Depth, T>(g, v, m, b, 0);
}
template <int Depth, class B> void mat(pbt::Gen &g)
{
  typedef typename B::value_type T;
  Base<T> b; b.d = 2; b.n[0] = g.len(1, 12); b.n[1] = g.len(1, 12); b.n[2] = 1; g.large({&b.n[0], &b.n[1]}, 300, 40);
  g.note() << "matrix " << b.n[0] << "x" << b.n[1] << " ";
  Matrix<T, B> v(b.n[0], b.n[1]);
  b.get = [&](size_t i, size_t j, size_t) { return v.get(i, j); }; b.put = [&](size_t i, size_t j, size_t, T x) { v.put(i, j, x); };
  Map m = init(g, b, 2);
  walk2<Depth, T>(g, v, m, b, 0);
}
template <int Depth, class B> void ten(pbt::Gen &g)
{
  typedef typename B::value_type T;
  Base<T> b; b.d = 3; b.n[0] = g.len(1, 6); b.n[1] = g.len(1, 6); b.n[2] = g.len(1, 6); g.large({&b.n[0], &b.n[1], &b.n[2]}, 100, 14);
  g.note() << "tensor " << b.n[0] << "x" << b.n[1] << "x" << b.n[2] << " ";
  Tensor<T, B> v(b.n[0], b.n[1], b.n[2]);
  b.get = [&](size_t i, size_t j, size_t k) { return v.get(i, j, k); }; b.put = [&](size_t i, size_t j, size_t k, T x) { v.put(i, j, k, x); };
  Map m = init(g, b, 3);
  walk3<Depth, T>(g, v, m, b, 0);
}
} // namespace c01

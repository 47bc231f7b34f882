// Operands for the harnesses: views of every kind with known contents, cut out of a larger, guarded original.
#ifndef VIEWS_HPP
#define VIEWS_HPP
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include "pbt.hpp"
#include <functional>

namespace vsip
{
template <dimension_type D> std::ostream &operator<<(std::ostream &o, Index<D> const &i) { for (dimension_type d = 0; d < D; ++d) o << (d ? "," : "(") << i[d]; return o << ')'; }
}
namespace pv
{
using namespace vsip;

template <class T> struct is_cplx { enum { value = 0 }; typedef T real; };
template <class T> struct is_cplx<std::complex<T>> { enum { value = 1 }; typedef T real; };

// A row-major array of 1-3 dimensions: the model of a view
template <class T> struct Arr
{
  size_t n[3]; std::vector<T> v;
  Arr() { n[0] = n[1] = n[2] = 0; }
  explicit Arr(size_t a, size_t b = 1, size_t c = 1) : v(a * b * c) { n[0] = a; n[1] = b; n[2] = c; }
  T at(size_t i, size_t j = 0, size_t k = 0) const { return v[(i * n[1] + j) * n[2] + k]; }
  typename std::vector<T>::reference at(size_t i, size_t j = 0, size_t k = 0) { return v[(i * n[1] + j) * n[2] + k]; }
  size_t size() const { return v.size(); }
};
template <class T> Arr<T> data(uint64_t seed, pbt::Data_kind k, size_t a, size_t b = 1, size_t c = 1)
{
  Arr<T> r(a, b, c);
  for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = pbt::make<T>::from(seed, i, k);
  return r;
}
template <class T> std::ostream &operator<<(std::ostream &o, Arr<T> const &a)
{
  o << "{"; for (size_t i = 0; i < a.v.size() && i < 12; ++i) o << (i ? " " : "") << pbt::show(T(a.v[i]));
  return o << (a.v.size() > 12 ? " ..}" : "}");
}

// uniform element access
template <class T, class B> T vget(const_Vector<T, B> const &v, size_t i, size_t, size_t) { return v.get(i); }
template <class T, class B> T vget(const_Matrix<T, B> const &v, size_t i, size_t j, size_t) { return v.get(i, j); }
template <class T, class B> T vget(const_Tensor<T, B> const &v, size_t i, size_t j, size_t k) { return v.get(i, j, k); }
template <class T, class B> void vput(Vector<T, B> const &v, size_t i, size_t, size_t, T x) { v.put(i, x); }
template <class T, class B> void vput(Matrix<T, B> const &v, size_t i, size_t j, size_t, T x) { v.put(i, j, x); }
template <class T, class B> void vput(Tensor<T, B> const &v, size_t i, size_t j, size_t k, T x) { v.put(i, j, k, x); }
template <class V> size_t vdim(V const &v, unsigned d) { return d < V::dim ? v.size(d) : 1; }
template <class V> Arr<typename V::value_type> read(V const &v)
{
  Arr<typename V::value_type> a(vdim(v, 0), vdim(v, 1), vdim(v, 2));
  for (size_t i = 0; i < a.n[0]; ++i) for (size_t j = 0; j < a.n[1]; ++j) for (size_t k = 0; k < a.n[2]; ++k) a.at(i, j, k) = vget(v, i, j, k);
  return a;
}
template <class V> void write(V const &v, Arr<typename V::value_type> const &a)
{
  for (size_t i = 0; i < a.n[0]; ++i) for (size_t j = 0; j < a.n[1]; ++j) for (size_t k = 0; k < a.n[2]; ++k) vput(v, i, j, k, a.at(i, j, k));
}

template <class T> bool eq(T a, T b) { return pbt::same(a, b); }

// V cut out of R; Rest checks that only V's elements changed.
template <class R, class V> struct Operand
{
  typedef typename V::value_type T; typedef typename R::value_type U; typedef V view_type;
  R root; V view; Arr<U> guard; char const *kind;
  Operand(R const &r, V const &v, char const *k) : root(r), view(v), kind(k) {}
  // distinct marks everywhere, so that a stray write or read shows
  void mark() { guard = Arr<U>(vdim(root, 0), vdim(root, 1), vdim(root, 2)); for (size_t i = 0; i < guard.v.size(); ++i) guard.v[i] = (U)(i % 100 + 20); write(root, guard); }
  void set(Arr<T> const &a)
  {
    write(view, a); guard = read(root);
  }
  // the view holds a; the rest is as it was
  template <class Eq> bool holds(pbt::Gen &g, Arr<T> const &a, char const *what, Eq close)
  {
    for (size_t i = 0; i < a.n[0]; ++i) for (size_t j = 0; j < a.n[1]; ++j) for (size_t k = 0; k < a.n[2]; ++k)
    {
      T got = vget(view, i, j, k), want = a.at(i, j, k);
      if (!close(got, want))
      { g.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ") of the " + kind + " is " + pbt::show(got) + ", not " + pbt::show(want)); return false; }
    }
    // put the old contents back: now all of the original must be as it was
    Arr<T> now = read(view);
    Arr<U> save(guard);
    Arr<U> cur = read(root);
    // a model write of the view's present values into the old original
    write(root, save); write(view, now);
    Arr<U> want = read(root);
    write(root, cur);
    for (size_t i = 0; i < cur.v.size(); ++i)
      if (!eq<U>(cur.v[i], want.v[i]))
      { g.fail(std::string(what) + ": changed an element outside the " + kind + ": original element " + std::to_string(i) + " is " + pbt::show(U(cur.v[i])) + ", was " + pbt::show(U(want.v[i]))); return false; }
    guard = cur;
    return true;
  }
  bool holds(pbt::Gen &g, Arr<T> const &a, char const *what) { return holds(g, a, what, [](T x, T y) { return eq<T>(x, y); }); }
};
template <class R, class V> Operand<R, V> operand(R const &r, V const &v, char const *k) { Operand<R, V> o(r, v, k); o.mark(); return o; }

// a strided part of n elements of a larger extent
struct Part { size_t extent; Domain<1> dom; };
inline Part part(pbt::Gen &g, size_t n)
{
  Part p; if (g.flip(3, 10)) { p.extent = n ? n : 1; p.dom = Domain<1>(n); return p; }      // all of it
  long s = g.pick<long>({1, 1, 2, 3, -1, -2}); size_t a = s < 0 ? -s : s;
  size_t lead = g.draw(3), trail = g.draw(3), span = n ? (n - 1) * a + 1 : 0;
  p.extent = lead + span + trail; if (!p.extent) p.extent = 1;
  p.dom = Domain<1>(s < 0 ? lead + span - 1 : lead, s, n);
  return p;
}
inline std::ostream &operator<<(std::ostream &o, Part const &p) { return o << p.extent << "[" << p.dom.first() << "," << p.dom.stride() << "," << p.dom.size() << "]"; }

template <class T, bool C = is_cplx<T>::value> struct other;    // blocks whose storage differs: split complex, or a part of a complex
template <class T> struct other<T, true>
{
  typedef Vector<T, ovxx::Strided<1, T, Layout<1, row1_type, dense, split_complex>>> V1;
  typedef Matrix<T, ovxx::Strided<2, T, Layout<2, col2_type, dense, split_complex>>> M1;
  typedef Tensor<T, ovxx::Strided<3, T, Layout<3, tuple<1, 2, 0>, aligned_32, split_complex>>> T1;
  static Operand<V1, V1> v(size_t n) { V1 r(n); return operand(r, r, "split complex vector"); }
  static Operand<M1, M1> m(size_t n, size_t k) { M1 r(n, k); return operand(r, r, "split complex column-major matrix"); }
  static Operand<T1, T1> t(size_t a, size_t b, size_t c) { T1 r(a, b, c); return operand(r, r, "split complex tensor"); }
};
template <class T> struct cplx_of { typedef std::complex<float> type; };
template <> struct cplx_of<double> { typedef std::complex<double> type; };
template <class T> struct real_kinds
{
  typedef typename cplx_of<T>::type C;
  typedef Vector<C> V0; typedef Matrix<C, Dense<2, C, col2_type>> M0; typedef Tensor<C, Dense<3, C, tuple<1, 2, 0>>> T0;
  typedef typename V0::realview_type V1; typedef typename M0::imagview_type M1; typedef typename T0::imagview_type T1;
  static Operand<V0, V1> v(size_t n) { V0 r(n); return operand(r, r.real(), "real part of a vector"); }
  static Operand<M0, M1> m(size_t n, size_t k) { M0 r(n, k); return operand(r, r.imag(), "imaginary part of a column-major matrix"); }
  static Operand<T0, T1> t(size_t a, size_t b, size_t c) { T0 r(a, b, c); return operand(r, r.imag(), "imaginary part of a tensor"); }
};
template <class T> struct plain_kinds
{
  typedef Vector<T, ovxx::Strided<1, T, Layout<1, row1_type, unit_stride, array>>> V1;
  typedef Matrix<T, ovxx::Strided<2, T, Layout<2, col2_type, aligned_64, array>>> M1;
  typedef Tensor<T, ovxx::Strided<3, T, Layout<3, tuple<1, 2, 0>, aligned_32, array>>> T1;
  static Operand<V1, V1> v(size_t n) { V1 r(n); return operand(r, r, "unit-stride vector"); }
  static Operand<M1, M1> m(size_t n, size_t k) { M1 r(n, k); return operand(r, r, "64-byte aligned column-major matrix"); }
  static Operand<T1, T1> t(size_t a, size_t b, size_t c) { T1 r(a, b, c); return operand(r, r, "32-byte aligned tensor"); }
};
template <class T> struct other<T, false> : plain_kinds<T> {};
template <> struct other<float, false> : real_kinds<float> {};
template <> struct other<double, false> : real_kinds<double> {};

// f(operand) with a view of n elements of some kind. Kinds is a mask of the kinds allowed.
enum { V_dense = 1, V_subset = 2, V_col = 4, V_diag = 8, V_other = 16, V_slice = 32, V_row = 64, V_all = 127, V_basic = 1 + 2 + 16 };
template <class T, int K, int Mask> struct vkind { template <class F> static bool go(pbt::Gen &, size_t, F const &, unsigned) { return false; } };
#define VK(bit, ...)                                                                   \
template <class T, int Mask> struct vkind<T, bit, Mask>                                 \
{ template <class F> static void go(pbt::Gen &g, size_t n, F const &f) __VA_ARGS__ };
VK(1, { Vector<T> r(n); auto o = operand(r, r, "vector"); f(o); })
VK(2, { Part p = part(g, n); g.note() << p; Vector<T> r(p.extent); auto o = operand(r, r(p.dom), "strided subvector"); f(o); })
VK(4, { size_t c = 1 + g.draw(4), i = g.draw(c); Matrix<T> r(n, c); auto o = operand(r, r.col(i), "column of a row-major matrix"); f(o); })
VK(8, { size_t x = g.draw(3); Matrix<T, Dense<2, T, col2_type>> r(n + 1, n + x); auto o = operand(r, r.diag(-1)(Domain<1>(n)), "diagonal of a column-major matrix"); f(o); })
VK(16, { auto o = other<T>::v(n); f(o); })
VK(32, { size_t a = 1 + g.draw(3), c = 1 + g.draw(3), i = g.draw(a), k = g.draw(c); Tensor<T> r(a, n, c); auto o = operand(r, r(i, whole_domain, k), "vector slice of a tensor"); f(o); })
VK(64, { size_t c = 1 + g.draw(4), i = g.draw(c); Matrix<T> r(c, n); auto o = operand(r, r.row(i), "row of a row-major matrix"); f(o); })
#undef VK
template <class T, int Mask, int K, bool ok> struct vrun { template <class F> static void go(pbt::Gen &, size_t, F const &) {} };
template <class T, int Mask, int K> struct vrun<T, Mask, K, true> { template <class F> static void go(pbt::Gen &g, size_t n, F const &f) { vkind<T, K, Mask>::go(g, n, f); } };
inline int choose(pbt::Gen &g, int mask) { std::vector<int> k; for (int b = 1; b <= 512; b <<= 1) if (mask & b) k.push_back(b); return g.pick(k); }
template <class T, int Mask, class F> void with_vector(pbt::Gen &g, size_t n, F const &f)
{
  int k = choose(g, Mask);
  switch (k)
  {
#define C(b) case b: vrun<T, Mask, b, (Mask & b) != 0>::go(g, n, f); break;
    C(1) C(2) C(4) C(8) C(16) C(32) C(64)
#undef C
  }
}

enum { M_row = 1, M_col = 2, M_subset = 4, M_transpose = 8, M_subtrans = 16, M_other = 32, M_slice = 64, M_aligned = 128, M_all = 255, M_basic = 1 + 2 + 4 + 32 };
template <class T, int K> struct mkind;
#define MK(bit, ...)                                                                   \
template <class T> struct mkind<T, bit>                                                 \
{ template <class F> static void go(pbt::Gen &g, size_t n, size_t m, F const &f) __VA_ARGS__ };
MK(1, { Matrix<T> r(n, m); auto o = operand(r, r, "row-major matrix"); f(o); })
MK(2, { Matrix<T, Dense<2, T, col2_type>> r(n, m); auto o = operand(r, r, "column-major matrix"); f(o); })
MK(4, { Part p = part(g, n), q = part(g, m); g.note() << p << q; Matrix<T> r(p.extent, q.extent); auto o = operand(r, r(Domain<2>(p.dom, q.dom)), "strided submatrix"); f(o); })
MK(8, { Matrix<T> r(m, n); auto o = operand(r, r.transpose(), "transposed row-major matrix"); f(o); })
MK(16, { Part p = part(g, n), q = part(g, m); g.note() << p << q; Matrix<T> r(q.extent, p.extent); auto o = operand(r, r.transpose()(Domain<2>(p.dom, q.dom)), "strided part of a transposed matrix"); f(o); })
MK(32, { auto o = other<T>::m(n, m); f(o); })
MK(64, { size_t c = 1 + g.draw(3), i = g.draw(c); Tensor<T> r(n, c, m); auto o = operand(r, r(whole_domain, i, whole_domain), "matrix slice of a tensor"); f(o); })
MK(128, { typedef Matrix<T, ovxx::Strided<2, T, Layout<2, row2_type, aligned_32, array>>> M; M r(n, m); auto o = operand(r, r, "32-byte aligned row-major matrix"); f(o); })
#undef MK
template <class T, int K, bool ok> struct mrun { template <class F> static void go(pbt::Gen &, size_t, size_t, F const &) {} };
template <class T, int K> struct mrun<T, K, true> { template <class F> static void go(pbt::Gen &g, size_t n, size_t m, F const &f) { mkind<T, K>::go(g, n, m, f); } };
template <class T, int Mask, class F> void with_matrix(pbt::Gen &g, size_t n, size_t m, F const &f)
{
  int k = choose(g, Mask);
  switch (k)
  {
#define C(b) case b: mrun<T, b, (Mask & b) != 0>::go(g, n, m, f); break;
    C(1) C(2) C(4) C(8) C(16) C(32) C(64) C(128)
#undef C
  }
}

enum { T_012 = 1, T_210 = 2, T_102 = 4, T_subset = 8, T_perm = 16, T_other = 32, T_all = 63 };
template <class T, int K> struct tkind;
#define TK(bit, ...)                                                                   \
template <class T> struct tkind<T, bit>                                                 \
{ template <class F> static void go(pbt::Gen &g, size_t a, size_t b, size_t c, F const &f) __VA_ARGS__ };
TK(1, { Tensor<T> r(a, b, c); auto o = operand(r, r, "tensor"); f(o); })
TK(2, { Tensor<T, Dense<3, T, tuple<2, 1, 0>>> r(a, b, c); auto o = operand(r, r, "tensor in order 2,1,0"); f(o); })
TK(4, { Tensor<T, Dense<3, T, tuple<1, 0, 2>>> r(a, b, c); auto o = operand(r, r, "tensor in order 1,0,2"); f(o); })
TK(8, { Part p = part(g, a), q = part(g, b), s = part(g, c); g.note() << p << q << s; Tensor<T> r(p.extent, q.extent, s.extent); auto o = operand(r, r(Domain<3>(p.dom, q.dom, s.dom)), "strided subtensor"); f(o); })
TK(16, { Tensor<T> r(b, c, a); auto o = operand(r, r.template transpose<2, 0, 1>(), "permuted tensor"); f(o); })
TK(32, { auto o = other<T>::t(a, b, c); f(o); })
#undef TK
template <class T, int K, bool ok> struct trun { template <class F> static void go(pbt::Gen &, size_t, size_t, size_t, F const &) {} };
template <class T, int K> struct trun<T, K, true> { template <class F> static void go(pbt::Gen &g, size_t a, size_t b, size_t c, F const &f) { tkind<T, K>::go(g, a, b, c, f); } };
template <class T, int Mask, class F> void with_tensor(pbt::Gen &g, size_t a, size_t b, size_t c, F const &f)
{
  int k = choose(g, Mask);
  switch (k)
  {
#define C(x) case x: trun<T, x, (Mask & x) != 0>::go(g, a, b, c, f); break;
    C(1) C(2) C(4) C(8) C(16) C(32)
#undef C
  }
}
} // namespace pv
#endif

// C21 selection and generation
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include "views.hpp"
using namespace pv; typedef std::complex<float> cf;
template <class V> struct const_of; template <class T, class B> struct const_of<Vector<T, B>> { typedef const_Vector<T, B> type; }; template <class T, class B> struct const_of<Matrix<T, B>> { typedef const_Matrix<T, B> type; }; template <class T, class B> struct const_of<Tensor<T, B>> { typedef const_Tensor<T, B> type; };
template <class V> typename const_of<V>::type cst(V const &v) { return v; }
template <class T> struct Big { T d; bool operator()(T a, T b) const { return a + d < b; } };
inline size_t len(pbt::Gen &g) { return g.large(g.pick({(size_t)1, (size_t)2, (size_t)3, (size_t)(1 + g.draw(40)), (size_t)(1 + g.draw(40))}), 1100); }
template <class T, int M1, int M2> void first_(pbt::Gen &g)
{
  size_t n = len(g), b = g.draw(n + 3); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n), c = data<T>(g.dataseed(), pbt::signed_int, n); Big<T> p = {T(g.range(-2, 8))}; g.note() << n << " from " << b << ": ";
  with_vector<T, M1>(g, n, [&](auto &v) { with_vector<T, M2>(g, n, [&](auto &w) {
    v.set(a); w.set(c); g.note() << v.kind << ", " << w.kind; index_type got = g.flip() ? first(b, p, cst(v.view), cst(w.view)) : first(b, [&](T x, T y) { return p(x, y); }, cst(v.view), cst(w.view)); size_t want = b; while (want < n && !p(a.v[want], c.v[want])) ++want;
    REQUIRE(g, got == want, "first() is " << got << ", not " << want); v.holds(g, a, "the first view") && w.holds(g, c, "the second view"); if (want > b && want < n) g.nontrivial(); g.label(want < n ? "found" : "not found");
  }); });
}
template <int M> void indexbool_1(pbt::Gen &g)
{
  size_t n = len(g); uint64_t s = g.dataseed(); unsigned den = 1 + g.draw(4); Arr<bool> a(n); size_t count = 0; for (size_t i = 0; i < n; ++i) count += a.v[i] = pbt::mix(s + i) % 4 < den;
  size_t room = g.flip(1, 3) ? count : g.draw(n + 3); if (!room) room = 1; g.note() << n << " with " << count << " true into " << room << ": ";
  with_vector<bool, M>(g, n, [&](auto &v) { v.set(a); g.note() << v.kind; Vector<Index<1>> x(2 * room + 1, Index<1>(77)); auto part = x(Domain<1>(1, 2, room)); Vector<Index<1>> whole(room, Index<1>(77));
    size_t r; bool sub = g.flip(); if (sub) r = indexbool(cst(v.view), part); else r = indexbool(cst(v.view), whole); REQUIRE(g, r == count, "indexbool() is " << r << ", not " << count); size_t k = 0;
    for (size_t i = 0; i < n; ++i) if (a.v[i]) { if (k < room) { Index<1> q = sub ? Index<1>(x.get(2 * k + 1)) : Index<1>(whole.get(k)); REQUIRE(g, q == Index<1>(i), "index " << k << " is " << q[0] << ", not " << i); } ++k; }
    for (; k < room; ++k) { Index<1> q = sub ? x.get(2 * k + 1) : whole.get(k); REQUIRE(g, q == Index<1>(77), "index " << k << " past the last was written"); } for (size_t i = 0; i <= room; ++i) REQUIRE(g, x.get(2 * i) == Index<1>(77), "an index between was written"); v.holds(g, a, "the source"); if (count && count < n) g.nontrivial();
  });
}
template <int M> void indexbool_2(pbt::Gen &g)
{
  size_t n = 1 + g.draw(7), m = 1 + g.draw(7); g.large({&n, &m}, 140, 24); uint64_t s = g.dataseed(); unsigned den = 1 + g.draw(4); Arr<bool> a(n, m); size_t count = 0; for (size_t i = 0; i < n * m; ++i) count += a.v[i] = pbt::mix(s + i) % 4 < den;
  size_t room = g.flip(1, 3) ? count : g.draw(n * m + 3); if (!room) room = 1; g.note() << n << 'x' << m << " with " << count << " true into " << room << ": ";
  with_matrix<bool, M>(g, n, m, [&](auto &v) { v.set(a); g.note() << v.kind; Vector<Index<2>> x(room, Index<2>(77, 78)); size_t r = indexbool(cst(v.view), x); REQUIRE(g, r == count, "indexbool() is " << r << ", not " << count); size_t k = 0;
    for (size_t i = 0; i < n * m; ++i) if (a.v[i]) { if (k < room) { Index<2> q = x.get(k); REQUIRE(g, q == Index<2>(i / m, i % m), "index " << k << " is (" << q[0] << "," << q[1] << "), not (" << i / m << "," << i % m << ")"); } ++k; }
    for (; k < room; ++k) REQUIRE(g, x.get(k) == Index<2>(77, 78), "index " << k << " past the last was written"); v.holds(g, a, "the source"); if (count && count < n * m) g.nontrivial();
  });
}
template <int D> struct W; template <> struct W<1> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_vector<T, M>(g, n[0], f); } static Index<1> ix(size_t i, size_t, size_t) { return Index<1>(i); } };
template <> struct W<2> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_matrix<T, M>(g, n[0], n[1], f); } static Index<2> ix(size_t i, size_t j, size_t) { return Index<2>(i, j); } };
template <> struct W<3> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_tensor<T, M>(g, n[0], n[1], n[2], f); } static Index<3> ix(size_t i, size_t j, size_t k) { return Index<3>(i, j, k); } };
inline void shape(pbt::Gen &g, int D, size_t *n) { n[0] = n[1] = n[2] = 1; if (D == 1) n[0] = len(g); else for (int d = 0; d < D; ++d) n[d] = 1 + g.draw(D == 2 ? 9 : 5); g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << ' '; }
template <class T, int D, int M> void gather_(pbt::Gen &g)
{
  size_t n[3]; shape(g, D, n); size_t N = n[0] * n[1] * n[2], c = 1 + g.draw(20); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]); std::vector<size_t> e(c); for (auto &x : e) x = g.draw(N); bool sub = g.flip();
  W<D>::template go<T, M>(g, n, [&](auto &v) { v.set(a); g.note() << v.kind; Vector<Index<D>> full(2 * c); for (size_t q = 0; q < c; ++q) full.put(sub ? 2 * q + 1 : q, W<D>::ix(e[q] / (n[1] * n[2]), e[q] / n[2] % n[1], e[q] % n[2]));
    auto x = full(sub ? Domain<1>(1, 2, c) : Domain<1>(c)); Vector<T> r = gather(cst(v.view), cst(x)); REQUIRE(g, r.size() == c, "gather() gives " << r.size() << " elements"); for (size_t q = 0; q < c; ++q) REQUIRE(g, eq<T>(r.get(q), a.v[e[q]]), "element " << q << " is " << pbt::show(T(r.get(q))) << ", not " << pbt::show(a.v[e[q]])); v.holds(g, a, "the source"); if (c > 1 && N > 1) g.nontrivial(); });
}
template <class T, int D, int M, int MV> void scatter_(pbt::Gen &g)
{
  size_t n[3]; shape(g, D, n); size_t N = n[0] * n[1] * n[2], c = 1 + g.draw(20); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]), s = data<T>(g.dataseed(), pbt::signed_int, c); std::vector<size_t> e(c); for (auto &x : e) x = g.draw(N);
  W<D>::template go<T, M>(g, n, [&](auto &v) { with_vector<T, MV>(g, c, [&](auto &w) { v.set(a); w.set(s); g.note() << v.kind << " from " << w.kind; Vector<Index<D>> x(c); for (size_t q = 0; q < c; ++q) x.put(q, W<D>::ix(e[q] / (n[1] * n[2]), e[q] / n[2] % n[1], e[q] % n[2]));
    scatter(cst(w.view), cst(x), v.view); Arr<T> want = a; for (size_t q = 0; q < c; ++q) want.v[e[q]] = s.v[q]; v.holds(g, want, "the destination") && w.holds(g, s, "the source"); if (c > 1 && N > 1) g.nontrivial(); }); });
}
template <class T, int D, int M1, int M2> void swap_(pbt::Gen &g)
{
  size_t n[3]; shape(g, D, n); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]), b = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  W<D>::template go<T, M1>(g, n, [&](auto &v) { W<D>::template go<T, M2>(g, n, [&](auto &w) { v.set(a); w.set(b); g.note() << v.kind << ", " << w.kind; vsip::swap(v.view, w.view); v.holds(g, b, "the first view after swap()") && w.holds(g, a, "the second view after swap()"); if (a.v.size() > 1) g.nontrivial(); }); });
}
template <class T, class X, int D, int M> void clip_(pbt::Gen &g)
{
  size_t n[3]; shape(g, D, n); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]); X lo = X(g.range(-6, 6)), mid = X(lo + X(g.draw(5))), hi = X(mid + X(g.draw(5))); T cl = T(g.range(-50, 50)), cu = T(g.range(-50, 50)); bool inv = g.flip(); g.note() << (inv ? "invclip " : "clip ") << +lo << ' ' << +mid << ' ' << +hi << ": ";
  W<D>::template go<T, M>(g, n, [&](auto &v) { v.set(a); g.note() << v.kind; Arr<T> want = a, got; int in = 0;
    if (inv) { for (auto &x : want.v) { if (x < lo) ; else if (x < mid) x = cl, ++in; else if (x <= hi) x = cu, ++in; } } else for (auto &x : want.v) { if (x <= lo) x = cl, ++in; else if (x < hi) ; else x = cu, ++in; }
    if (g.flip()) { auto e = inv ? 0 : 0; (void)e; if (inv) v.view = invclip(v.view, lo, mid, hi, cl, cu); else v.view = clip(v.view, lo, hi, cl, cu); v.holds(g, want, "in place"); }
    else { if (inv) got = read(invclip(v.view, lo, mid, hi, cl, cu)); else got = read(clip(v.view, lo, hi, cl, cu)); for (size_t i = 0; i < got.v.size(); ++i) REQUIRE(g, eq<T>(got.v[i], want.v[i]), "element " << i << " (" << pbt::show(T(a.v[i])) << ") becomes " << pbt::show(T(got.v[i])) << ", not " << pbt::show(T(want.v[i]))); v.holds(g, a, "the source"); }
    if (in && in < (int)a.v.size()) g.nontrivial(); });
}
// Operands, thresholds and replacements each of a type of their own: the thresholds are fractions.
template <class T, class X, class O, int D, int M> void clip_types(pbt::Gen &g)
{
  size_t n[3]; shape(g, D, n); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]); double q = X(0.5) == X(0) ? 1 : 0.25;
  X lo = X(g.range(-24, 24) * q), mid = X(lo + X(g.draw(20) * q)), hi = X(mid + X(g.draw(20) * q)); O cl = O(g.range(-50, 50)), cu = O(g.range(-50, 50)); bool inv = g.flip(); g.note() << (inv ? "invclip " : "clip ") << +lo << ' ' << +mid << ' ' << +hi << ": ";
  W<D>::template go<T, M>(g, n, [&](auto &v) { v.set(a); g.note() << v.kind; int in = 0; auto got = inv ? read(invclip(v.view, lo, mid, hi, cl, cu)) : read(clip(v.view, lo, hi, cl, cu));
    for (size_t i = 0; i < a.v.size(); ++i) { T x = a.v[i]; O want; if (inv) want = x < lo ? O(x) : x < mid ? (++in, cl) : x <= hi ? (++in, cu) : O(x); else want = x <= lo ? (++in, cl) : x < hi ? O(x) : (++in, cu);
      REQUIRE(g, eq<O>(O(got.v[i]), want), "element " << i << " (" << pbt::show(x) << ") becomes " << pbt::show(O(got.v[i])) << ", not " << pbt::show(want)); }
    v.holds(g, a, "the source"); if (in && in < (int)a.v.size()) g.nontrivial(); });
}
template <class T, int M> void ramp_(pbt::Gen &g)
{
  size_t n = g.flip(1, 8) ? 1 + g.draw(3000) : len(g); T a = pbt::make<T>::from(g.draw(60), 1, pbt::signed_int), b = pbt::make<T>::from(g.draw(60), 2, pbt::signed_int); g.note() << n << ": "; Arr<T> want(n); for (size_t i = 0; i < n; ++i) want.v[i] = a + T(i) * b;
  with_vector<T, M>(g, n, [&](auto &v) { Arr<T> z(n); v.set(z); g.note() << v.kind; int k = g.draw(3); if (k == 0) v.view = ramp(a, b, n); else if (k == 1) { v.view = T(1); v.view += ramp(a, b, n); for (auto &x : want.v) x = T(1) + x; } else { auto r = ramp(a, b, n); REQUIRE(g, r.size() == n, "ramp() of size " << r.size()); for (size_t i = 0; i < n; ++i) v.view.put(i, r.get(i)); } v.holds(g, want, "the ramp"); if (n > 1) g.nontrivial(); });
}

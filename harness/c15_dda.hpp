// C15 direct data access
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/dda.hpp>
#include <ovxx/dda/runtime.hpp>
#include <memory>
#include <cstdlib>
#include "views.hpp"
using namespace pv; namespace dda = vsip::dda;
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <int D> struct with_;
template <> struct with_<1> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_vector<T, M>(g, n[0], f); } };
template <> struct with_<2> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_matrix<T, M>(g, n[0], n[1], f); } };
template <> struct with_<3> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_tensor<T, M>(g, n[0], n[1], n[2], f); } };
template <class F, int... I> void one_of(pbt::Gen &g, F const &f, std::integer_sequence<int, I...>)
{ int k = g.draw(sizeof...(I)); int x[] = {(k == I ? (f(std::integral_constant<int, I>()), 0) : 0)...}; (void)x; }
template <int N, class F> void one_of(pbt::Gen &g, F const &f) { one_of(g, f, std::make_integer_sequence<int, N>()); }
// element o of raw storage: an array, an interleaved or a split one
template <class T, class P> struct raw { static T get(P p, ptrdiff_t o) { return p[o]; } static void put(P p, ptrdiff_t o, T v) { const_cast<T *>(p)[o] = v; } static size_t addr(P p) { return (size_t)p; } enum { elem = sizeof(T) }; };
template <class S> struct inter { typedef std::complex<S> T; static T get(S const *p, ptrdiff_t o) { return T(p[2 * o], p[2 * o + 1]); } static void put(S const *p, ptrdiff_t o, T v) { const_cast<S *>(p)[2 * o] = v.real(); const_cast<S *>(p)[2 * o + 1] = v.imag(); } static size_t addr(S const *p) { return (size_t)p; } enum { elem = 2 * sizeof(S) }; };
template <> struct raw<cf, float *> : inter<float> {}; template <> struct raw<cf, float const *> : inter<float> {}; template <> struct raw<cd, double *> : inter<double> {}; template <> struct raw<cd, double const *> : inter<double> {};
template <class S, class Q> struct raw<std::complex<S>, std::pair<Q, Q>>
{ typedef std::complex<S> T; typedef std::pair<Q, Q> P; static T get(P p, ptrdiff_t o) { return T(p.first[o], p.second[o]); } static void put(P p, ptrdiff_t o, T v) { const_cast<S *>(p.first)[o] = v.real(); const_cast<S *>(p.second)[o] = v.imag(); } static size_t addr(P p) { return (size_t)p.first | (size_t)p.second; } enum { elem = sizeof(S) }; };
// a buffer of exactly n elements
template <class T> struct Buffer
{
  void *a, *b;
  explicit Buffer(size_t n) { if (posix_memalign(&a, 256, n * sizeof(T) + !n) || posix_memalign(&b, 256, n * sizeof(T) + !n)) abort(); }
  ~Buffer() { free(a); free(b); }
  template <class S> void as(S *&p) { p = (S *)a; } template <class S> void as(std::pair<S *, S *> &p) { p.first = (S *)a; p.second = (S *)b; }
};
template <class S> S *start(S *p) { return p; } template <class S> S const *start(S const *p) { return p; } template <class P> auto start(P const &p) -> decltype(p.first) { return p.first; }
template <int D> struct order_of { dimension_type d[3]; };
template <class O> void dims(dimension_type *d) { d[0] = O::impl_dim0; d[1] = O::impl_dim1; d[2] = O::impl_dim2; }
template <class T, int D> struct Log // the block and the storage, as they should be
{ Arr<T> block, ptr; };
template <class Dt, class T, int D, class P> ptrdiff_t off(Dt const &d, size_t i, size_t j, size_t k) { ptrdiff_t o = i * d.stride(0); if (D > 1) o += j * d.stride(D > 1 ? 1 : 0); if (D > 2) o += k * d.stride(D > 2 ? 2 : 0); return o; }
template <class T, int D, class Dt, class P> void compare(pbt::Gen &g, Dt const &d, P p, Arr<T> const &w, char const *what)
{
  for (size_t i = 0; i < w.n[0]; ++i) for (size_t j = 0; j < w.n[1]; ++j) for (size_t k = 0; k < w.n[2]; ++k)
  { T v = raw<T, P>::get(p, off<Dt, T, D, P>(d, i, j, k)); if (!eq<T>(v, w.at(i, j, k))) { g.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ") at the pointer is " + pbt::show(v) + ", not " + pbt::show(T(w.at(i, j, k)))); return; } }
}
template <class T, int D, class Dt, class P> void fill(Dt const &d, P p, Arr<T> const &w)
{ for (size_t i = 0; i < w.n[0]; ++i) for (size_t j = 0; j < w.n[1]; ++j) for (size_t k = 0; k < w.n[2]; ++k) raw<T, P>::put(p, off<Dt, T, D, P>(d, i, j, k), w.at(i, j, k)); }
// the layout is as requested: order d, packing
template <class T, int D, class Dt, class P> void layout_ok(pbt::Gen &g, Dt const &d, P p, dimension_type const *ord, pack_type packing, unsigned alignment, size_t const *n)
{
  for (int i = 0; i < D; ++i) REQUIRE(g, d.size(i) == n[i], "size(" << i << ") is " << d.size(i));
  if (packing == any_packing) return;
  size_t prod = 1;
  for (int i = D; i--;)
  {
    size_t s = n[ord[i]], st = d.stride(ord[i]);
    if (s > 1)
    {
      if (i == D - 1) REQUIRE(g, st == 1, "the innermost stride is " << st);
      else if (packing == dense) REQUIRE(g, st == prod, "the stride of dimension " << ord[i] << " is " << st << ", not " << prod);
      else if (alignment) REQUIRE(g, (st * sizeof(T) % alignment == 0), "the stride of dimension " << ord[i] << " is " << st << ": rows are not aligned to " << alignment);
    }
    prod *= s;
  }
  // the library's allocator aligns to 32 bytes: base pointers are not claimed to be aligned to more (see DESIGN.md)
  if (alignment && alignment <= 32) REQUIRE(g, (raw<T, P>::addr(p) % alignment == 0), "the pointer is not aligned to " << alignment);
}
// the history, common to layouts given at compile time and at run time
template <class T, int D, dda::sync_policy S, class Dt, class O> void use(pbt::Gen &g, Dt &d, O &o, Log<T, D> &m, bool direct)
{
  auto p = d.ptr(); typedef decltype(p) P; bool wr = (S & dda::out) || ((S & dda::copy) && !direct);
  if ((S & dda::in) || direct) compare<T, D>(g, d, p, m.block, "access"), m.ptr = m.block;
  else { m.ptr = data<T>(g.dataseed(), pbt::signed_int, m.block.n[0], m.block.n[1], m.block.n[2]); fill<T, D>(d, p, m.ptr); }
  size_t N = m.block.v.size(); int writes = 0;
  for (int n = g.draw(7); n--;)
  {
    int op = g.draw(4); size_t e = g.draw(N), i = e / (m.block.n[1] * m.block.n[2]), j = e / m.block.n[2] % m.block.n[1], k = e % m.block.n[2]; T v = pbt::make<T>::from(g.draw(50), 1, pbt::signed_int);
    if (op == 0 && wr) { raw<T, P>::put(p, off<Dt, T, D, P>(d, i, j, k), v); m.ptr.v[e] = v; if (direct) m.block.v[e] = v; ++writes; g.note() << "write; "; }
    else if (op == 1) { vput(o.view, i, j, k, v); m.block.v[e] = v; if (direct) m.ptr.v[e] = v; g.note() << "put; "; }
    else if (op == 2) { d.sync_out(); if ((S & dda::out) && !direct) m.block = m.ptr; g.note() << "sync out; "; }
    else if (op == 3) { d.sync_in(); if ((S & dda::in) && !direct) m.ptr = m.block; g.note() << "sync in; "; }
    auto q = d.ptr(); REQUIRE(g, (raw<T, P>::addr(q) == raw<T, P>::addr(p)), "the pointer has changed"); compare<T, D>(g, d, q, m.ptr, "after an operation"); o.holds(g, m.block, "the block during the access"); if (g.failed) return;
  }
  if (writes) g.nontrivial();
}
template <class T, int D, dda::sync_policy S, class L, class O> void access(pbt::Gen &g, O &o, Arr<T> const &a, size_t const *n)
{
  typedef typename O::view_type::block_type B; B &block = o.view.block(); typedef dda::Data<B, S, L> Dt; typedef Log<T, D> M; M m; m.block = a;
  size_t need = dda::required_buffer_size<L>(block, (S & dda::copy) != 0); bool own = g.flip(), direct; g.note() << (own ? "own buffer; " : ""); int c0 = dda::cost<L>(block);
  {
    typedef typename std::conditional<std::is_same<typename ovxx::dda::Accessor<B, L, S>::non_const_ptr_type, void>::value, int, typename ovxx::dda::Accessor<B, L, S>::non_const_ptr_type>::type NP;
    Buffer<T> buf(own ? need : 0); NP np = NP(); buf.as(np);
    std::unique_ptr<Dt> d(own && need ? new Dt(block, np) : new Dt(block)); direct = d->cost() == 0;
    REQUIRE(g, !(S & dda::copy) || !direct, "a forced copy costs nothing"); REQUIRE(g, (S & dda::copy) || c0 == d->cost(), "cost() is " << d->cost() << ", dda::cost() " << c0); REQUIRE(g, !direct || need == 0, "direct access wants a buffer of " << need); REQUIRE(g, Dt::ct_cost >= d->cost(), "the static cost is less");
    g.note() << (direct ? "direct; " : "copy; "); g.label(direct ? "direct" : "copy");
    auto p = d->ptr(); typedef decltype(p) P; size_t total = n[0] * (D > 1 ? n[1] : 1) * (D > 2 ? n[2] : 1); REQUIRE(g, d->size() == total, "size() is " << d->size());
    if (own && need) REQUIRE(g, (void const *)start(p) == (void const *)start(np), "the buffer given is not used");
    typedef typename Dt::layout_type R; dimension_type ord[3]; dims<typename R::order_type>(ord); constexpr bool al = ovxx::is_packing_aligned<L::packing>::value; static unsigned const alignment = ovxx::is_packing_aligned<L::packing>::alignment;
    layout_ok<T, D>(g, *d, p, ord, L::packing, al ? alignment : 0, n);
    use<T, D, S>(g, *d, o, m, direct); if (S & dda::out && !direct) m.block = m.ptr;
  }
  o.holds(g, m.block, "the block after the access");
}
template <int I> struct sync_ { static dda::sync_policy const value = I == 0 ? dda::in : I == 1 ? dda::inout : I == 2 ? dda::out : I == 3 ? (dda::in | dda::copy) : I == 4 ? (dda::inout | dda::copy) : (dda::out | dda::copy); };
inline char const *sync_name(int i) { char const *s[] = {"in", "inout", "out", "in copy", "inout copy", "out copy"}; return s[i]; }
template <class B, class L> struct lay { typedef L type; };
template <class B> struct lay<B, void> { typedef typename dda::dda_block_layout<B>::layout_type type; };
// Ls: requested layouts
template <class... Ls> struct Ls_ {};
template <int I, class L> struct nth; template <int I, class A, class... R> struct nth<I, Ls_<A, R...>> : nth<I - 1, Ls_<R...>> {}; template <class A, class... R> struct nth<0, Ls_<A, R...>> { typedef A type; };
template <class T, int D, int Mask, class... L> void requests(pbt::Gen &g, Ls_<L...>)
{
  size_t n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = g.pick({1, 2, 3, 4, 5, 7, 8, 9, 16}); if (D == 1) n[0] = g.large(1 + g.draw(40), 1100); else g.large({&n[0], D == 2 ? &n[1] : &n[2]}, 140, 24, 150); if (D == 3) for (auto &x : n) x = 1 + (x - 1) % 6;
  g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  with_<D>::template go<T, Mask>(g, n, [&](auto &o) {
    o.set(a); typedef typename std::decay<decltype(o)>::type O; typedef typename O::view_type::block_type B; g.note() << o.kind << "; ";
    one_of<sizeof...(L)>(g, [&](auto I) { one_of<4>(g, [&](auto J) { constexpr int s = (decltype(I)::value + decltype(J)::value) % 6;
      typedef typename lay<B, typename nth<decltype(I)::value, Ls_<L...>>::type>::type Lt; g.note() << "layout " << decltype(I)::value << ' ' << sync_name(s) << "; ";
      access<T, D, sync_<s>::value, Lt>(g, o, a, n);
    }); });
  });
}
// a layout chosen at run time
template <class S> void const *where(ovxx::pointer<S> const &) { return 0; }
template <class T, bool C = is_cplx<T>::value> struct rt_ptr { template <class P, class F> static void go(P p, storage_format_type, F const &f) { f(p); } };
template <class T> struct rt_ptr<T, true>
{
  template <class P, class F> static void go(P p, storage_format_type s, F const &f)
  { if (s == split_complex) f(p.template as<split_complex>()); else if (s == interleaved_complex) f(p.template as<interleaved_complex>()); else f(p.template as<array>()); }
};
template <class Dt, class P> struct Fixed { Dt &d; P p; P ptr() { return p; } stride_type stride(dimension_type i) const { return d.stride(i); } length_type size(dimension_type i) const { return d.size(i); } void sync_in() { d.sync_in(); } void sync_out() { d.sync_out(); } };
template <class T, int D, int Mask> void runtime(pbt::Gen &g)
{
  size_t n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = g.pick({1, 2, 3, 4, 5, 7, 8, 9}); if (D == 1) n[0] = g.large(1 + g.draw(40), 1100); else g.large({&n[0], D == 2 ? &n[1] : &n[2]}, 140, 24, 150);
  dimension_type ord[3] = {0, 1, 2}; for (int d = D - 1; d > 0; --d) std::swap(ord[d], ord[g.draw(d + 1)]);
  int pk = g.draw(4); unsigned al = pk == 3 ? g.pick({8u, 16u, 32u, 64u, 128u}) : 0; pack_type packing = pk == 0 ? dense : pk == 1 ? unit_stride : pk == 2 ? any_packing : al == 8 ? aligned_8 : al == 16 ? aligned_16 : al == 32 ? aligned_32 : al == 64 ? aligned_64 : aligned_128;
  if (al == 8 && sizeof(T) > 8) { al = 16; packing = aligned_16; }
  storage_format_type fmt = is_cplx<T>::value ? g.pick({array, interleaved_complex, split_complex}) : array;
  g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << " order " << ord[0] << ord[1] << ord[2] << " packing " << packing << " format " << fmt << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  with_<D>::template go<T, Mask>(g, n, [&](auto &o) {
    o.set(a); typedef typename std::decay<decltype(o)>::type O; typedef typename O::view_type::block_type B; g.note() << o.kind << "; "; B &block = o.view.block();
    ovxx::Rt_layout<D> rtl(packing, ovxx::Rt_tuple(ord[0], ord[1], ord[2]), fmt, al); typedef Log<T, D> M; M m; m.block = a;
    one_of<3>(g, [&](auto J) {
      constexpr dda::sync_policy S = sync_<decltype(J)::value>::value; g.note() << sync_name(decltype(J)::value) << "; ";
      {
        ovxx::dda::Rt_data<B, S> d(block, rtl); bool direct = d.cost() == 0; g.label(direct ? "direct" : "copy"); g.note() << (direct ? "direct; " : "copy; ");
        rt_ptr<T>::go(d.ptr(), fmt, [&](auto p) { typedef Fixed<ovxx::dda::Rt_data<B, S>, decltype(p)> F; F f{d, p}; layout_ok<T, D>(g, f, p, ord, packing, al, n); use<T, D, S>(g, f, o, m, direct); if (S & dda::out && !direct) m.block = m.ptr; });
      }
      o.holds(g, m.block, "the block after the access");
    });
  });
}

// C17 serialization: describe, send, check, load
#include "c16_user.hpp"
#include <vsip/serialization.hpp>
namespace se = vsip::serialization; namespace dda = vsip::dda;
template <int D> struct with_;
template <> struct with_<1> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_vector<T, M>(g, n[0], f); } };
template <> struct with_<2> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_matrix<T, M>(g, n[0], n[1], f); } };
template <> struct with_<3> { template <class T, int M, class F> static void go(pbt::Gen &g, size_t const *n, F const &f) { with_tensor<T, M>(g, n[0], n[1], n[2], f); } };
template <class F, int... I> void one_of(pbt::Gen &g, F const &f, std::integer_sequence<int, I...>)
{ int k = g.draw(sizeof...(I)); int x[] = {(k == I ? (f(std::integral_constant<int, I>()), 0) : 0)...}; (void)x; }
template <int N, class F> void one_of(pbt::Gen &g, F const &f) { one_of(g, f, std::make_integer_sequence<int, N>()); }
// what a descriptor says, in the test's own terms
enum Kind { k_bool, k_char, k_f, k_d, k_cf, k_cd, k_i8, k_u8, k_i16, k_u16, k_i32, k_u32, k_i64, k_u64, kinds };
template <class T> struct kind; 
#define K(T, V) template <> struct kind<T> { enum { value = V }; };
K(bool, k_bool) K(char, k_char) K(float, k_f) K(double, k_d) K(cf, k_cf) K(cd, k_cd) K(se::int8_type, k_i8) K(se::uint8_type, k_u8) K(se::int16_type, k_i16) K(se::uint16_type, k_u16) K(se::int32_type, k_i32) K(se::uint32_type, k_u32) K(se::int64_type, k_i64) K(se::uint64_type, k_u64)
#undef K
inline se::uint64_type code(int k)
{
  switch (k) { case k_bool: return se::type_info<bool>::value; case k_char: return se::type_info<char>::value; case k_f: return se::type_info<float>::value; case k_d: return se::type_info<double>::value; case k_cf: return se::type_info<cf>::value; case k_cd: return se::type_info<cd>::value;
  case k_i8: return se::type_info<se::int8_type>::value; case k_u8: return se::type_info<se::uint8_type>::value; case k_i16: return se::type_info<se::int16_type>::value; case k_u16: return se::type_info<se::uint16_type>::value; case k_i32: return se::type_info<se::int32_type>::value; case k_u32: return se::type_info<se::uint32_type>::value; case k_i64: return se::type_info<se::int64_type>::value; default: return se::type_info<se::uint64_type>::value; }
}
inline void garbage(se::Descriptor &d) { std::memset(&d, 0xa5, sizeof d); }
// the order in which a dense block of that order keeps its elements is the one described
template <int D> bool fits(se::Descriptor const &d, dimension_type const *o)
{
  size_t n[3] = {1, 1, 1}; long s[3] = {0, 0, 0}; for (int i = 0; i < D; ++i) n[i] = d.size[i], s[i] = d.stride[i]; size_t x[3];
  for (x[0] = 0; x[0] < n[0]; ++x[0]) for (x[1] = 0; x[1] < n[1]; ++x[1]) for (x[2] = 0; x[2] < n[2]; ++x[2])
  { long at = 0, is = 0; for (int i = 0; i < D; ++i) at = at * (long)n[o[i]] + (long)x[o[i]], is += s[i] * (long)x[i]; if (at != is) return false; }
  return true;
}
template <class O> void dims(dimension_type *d) { d[0] = O::impl_dim0; d[1] = O::impl_dim1; d[2] = O::impl_dim2; }
inline std::string show(se::Descriptor const &d)
{ std::ostringstream o; o << "type " << d.value_type << ' ' << (int)d.dimensions << "-d size"; for (int i = 0; i < d.dimensions && i < 3; ++i) o << ' ' << d.size[i]; o << " stride"; for (int i = 0; i < d.dimensions && i < 3; ++i) o << ' ' << d.stride[i]; return o.str(); }
template <int D, class T, class O> int judge1(pbt::Gen &g, se::Descriptor const &d, int k)
{
  dimension_type o[3]; dims<O>(o);
  bool a = se::is_compatible<Dense<D, T, O>>(d), a2 = se::is_compatible<Str<D, T, O, array>>(d), fit = kind<T>::value == k && d.dimensions == D && fits<D>(d, o);
  REQUIRE(g, a == a2, "Dense and Strided of the same layout differ about " << show(d));
  if (a && !fit) { std::ostringstream s; s << "a " << D << "-dimensional dense block of type " << kind<T>::value << ", order " << o[0] << o[1] << o[2] << " accepts (type " << k << ") " << show(d); g.fail(s.str()); }
  // a description by the same kind of block, dense, has to be accepted
  if (fit)
  { size_t p = 1; bool canon = true; for (int i = D; i--;) { if ((size_t)d.stride[o[i]] != p) canon = false; p *= d.size[o[i]]; } REQUIRE(g, a || !canon, "a " << D << "-dimensional dense block of type " << k << ", order " << o[0] << o[1] << o[2] << " refuses " << show(d)); }
  return a;
}
template <class T> int judge2(pbt::Gen &g, se::Descriptor const &d, int k)
{
  return judge1<1, T, row1_type>(g, d, k) + judge1<2, T, row2_type>(g, d, k) + judge1<2, T, col2_type>(g, d, k) + judge1<3, T, tuple<0, 1, 2>>(g, d, k) + judge1<3, T, tuple<0, 2, 1>>(g, d, k)
       + judge1<3, T, tuple<1, 0, 2>>(g, d, k) + judge1<3, T, tuple<1, 2, 0>>(g, d, k) + judge1<3, T, tuple<2, 0, 1>>(g, d, k) + judge1<3, T, tuple<2, 1, 0>>(g, d, k);
}
inline int judge(pbt::Gen &g, se::Descriptor const &d, int k)
{
  return judge2<bool>(g, d, k) + judge2<char>(g, d, k) + judge2<float>(g, d, k) + judge2<double>(g, d, k) + judge2<cf>(g, d, k) + judge2<cd>(g, d, k) + judge2<se::int8_type>(g, d, k) + judge2<se::uint8_type>(g, d, k)
       + judge2<se::int16_type>(g, d, k) + judge2<se::uint16_type>(g, d, k) + judge2<se::int32_type>(g, d, k) + judge2<se::uint32_type>(g, d, k) + judge2<se::int64_type>(g, d, k) + judge2<se::uint64_type>(g, d, k);
}
// send n elements: raw storage copied into the receiver's memory
template <class T> struct Sent
{
  typedef typename scal<T>::type S; std::unique_ptr<Mem<T>> m;
  void take(T const *p, size_t n) { m.reset(new Mem<T>(ARRAY, n)); std::memcpy(m->pt(), p, n * sizeof(T)); done(); }
  void take2(S const *p, size_t n) { m.reset(new Mem<T>(INTER, n)); std::memcpy(m->pa(), p, 2 * n * sizeof(S)); done(); }
  template <class Q> void take(std::pair<Q, Q> p, size_t n) { m.reset(new Mem<T>(SPLIT, n)); std::memcpy(m->pa(), p.first, n * sizeof(S)); std::memcpy(m->pb(), p.second, n * sizeof(S)); done(); }
  void done() { for (size_t i = 0; i < m->n; ++i) m->want[i] = m->get(i); }
};
template <class T, bool C = scal<T>::cplx> struct Take { template <class P> static void go(Sent<T> &s, P p, size_t n) { s.take(p, n); } };
template <class T> struct Take<T, true> { template <class P> static void go(Sent<T> &s, P p, size_t n) { s.take(p, n); } template <class Q> static void go(Sent<T> &s, Q *p, size_t n) { pick(s, p, n); } static void pick(Sent<T> &s, T const *p, size_t n) { s.take(p, n); } static void pick(Sent<T> &s, typename scal<T>::type const *p, size_t n) { s.take2(p, n); } };
// the receiver: a block without storage, rebound to what came in
template <int D, class T, class B> void load(pbt::Gen &g, se::Descriptor const &d, Mem<T> &m, Arr<T> const &want)
{
  { // direct access may leave any stride to a dimension of size one: such a description may be refused
    typedef typename get_block_layout<B>::order_type O; dimension_type o[3]; dims<O>(o); size_t p = 1; bool canon = true; for (int i = D; i--;) { if ((size_t)d.stride[o[i]] != p) canon = false; p *= d.size[o[i]]; }
    if (!se::is_compatible<B>(d) && !canon && p == want.v.size()) { g.label("refused: size one"); bool one = false; for (int i = 0; i < D; ++i) one = one || d.size[i] == 1; REQUIRE(g, one, "dense storage is described as " << show(d)); return; }
  }
  REQUIRE(g, se::is_compatible<B>(d), "the same kind of block refuses " << show(d)); std::integral_constant<int, D> Dim; size_t z[3] = {0, 0, 0}, n[3] = {1, 1, 1}; for (int i = 0; i < D; ++i) { n[i] = d.size[i]; REQUIRE(g, n[i] == want.n[i], "size " << i << " is described as " << n[i]); }
  B *b; std::unique_ptr<Mem<T>> tmp; if (g.flip()) b = new B(dom_of<D>(z), (T *)0); else { size_t y[3] = {1 + (size_t)g.draw(4), 2, 3}; tmp.reset(new Mem<T>(m.form, y[0] * (D > 1 ? 2 : 1) * (D > 2 ? 3 : 1))); b = Calls<B, T>::make(dom_of<D>(y), *tmp, true); }
  Calls<B, T>::rebind(*b, m, dom_of<D>(n), g.draw(2)); b->admit();
  for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k)
  { T v = bget(*b, i, j, k, Dim), w = want.at(i, j, k); REQUIRE(g, v == w, "element (" << i << "," << j << "," << k << ") arrives as " << pbt::show(v) << ", not " << pbt::show(w)); }
  T x = T(1); bput(*b, 0, 0, 0, x, Dim); b->release(); dimension_type o[3]; REQUIRE(g, m.get(0) == x, "the receiver's memory is not updated"); m.want[0] = x; b->decrement_count(); m.ok(g, "after loading", 0);
}
template <int D, class T, class O> void load_any(pbt::Gen &g, se::Descriptor const &d, Mem<T> &m, Arr<T> const &want, std::true_type)
{ int k = g.draw(4); if (k == 0) load<D, T, Str<D, T, O, split_complex>>(g, d, m, want); else if (k == 1) load<D, T, Str<D, T, O, interleaved_complex>>(g, d, m, want); else if (k == 2) load<D, T, Str<D, T, O, array>>(g, d, m, want); else load<D, T, Dense<D, T, O>>(g, d, m, want); }
template <int D, class T, class O> void load_any(pbt::Gen &g, se::Descriptor const &d, Mem<T> &m, Arr<T> const &want, std::false_type)
{ if (g.flip()) load<D, T, Str<D, T, O, array>>(g, d, m, want); else load<D, T, Dense<D, T, O>>(g, d, m, want); }
inline void sizes(pbt::Gen &g, int D, size_t *n) { n[0] = n[1] = n[2] = 1; for (int d = 0; d < D; ++d) n[d] = D == 1 ? g.large(1 + g.draw(20), 1100, 150) : 1 + g.draw(6); if (D > 1) g.large({&n[0], &n[D - 1]}, 140, 24, 150); g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << ' '; }
template <int D, class T, int Mask, class O, storage_format_type F> void roundtrip(pbt::Gen &g)
{
  size_t n[3]; sizes(g, D, n); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  with_<D>::template go<T, Mask>(g, n, [&](auto &o) {
    o.set(a); g.note() << o.kind; typedef typename std::decay<decltype(o)>::type Op; typedef typename Op::view_type::block_type B; typedef Layout<D, O, dense, F> L;
    se::Descriptor d; garbage(d); Sent<T> s;
    { dda::Data<B, dda::in, L> x(o.view.block()); se::describe_data(x, d); Take<T>::go(s, x.ptr(), a.v.size()); }
    REQUIRE(g, d.value_type == se::type_info<T>::value && d.dimensions == D && d.storage_format == F, "described as " << show(d) << " format " << (int)d.storage_format); REQUIRE(g, d.storage_size >= a.v.size(), "storage of " << d.storage_size);
    judge(g, d, kind<T>::value); if (g.failed) return; load_any<D, T, O>(g, d, *s.m, a, std::integral_constant<bool, scal<T>::cplx>()); if (a.v.size() > 1) g.nontrivial();
  });
}
// as the block lies: compatible only if it is dense
template <int D, class T, int Mask> void as_is(pbt::Gen &g)
{
  size_t n[3]; sizes(g, D, n); Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  with_<D>::template go<T, Mask>(g, n, [&](auto &o) {
    o.set(a); g.note() << o.kind; typedef typename std::decay<decltype(o)>::type Op; typedef typename Op::view_type::block_type B; se::Descriptor d; garbage(d);
    dda::Data<B, dda::in> x(o.view.block()); se::describe_data(x, d);
    for (int i = 0; i < D; ++i) REQUIRE(g, d.size[i] == n[i] && d.stride[i] == x.stride(i), "described as " << show(d)); if (judge(g, d, kind<T>::value)) g.label("accepted"); else g.label("refused"); if (a.v.size() > 1) g.nontrivial();
  });
}
template <class B, class T, int D> void user(pbt::Gen &g)
{
  size_t n[3]; sizes(g, D, n); size_t N = n[0] * n[1] * n[2]; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]); typedef typename get_block_layout<B>::order_type O; std::integral_constant<int, D> Dim;
  Mem<T> m(scal<T>::cplx ? Form(g.draw(3)) : ARRAY, N); B *b = Calls<B, T>::make(dom_of<D>(n), m, true); b->admit(); for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k) bput(*b, i, j, k, a.at(i, j, k), Dim); b->release();
  for (size_t i = 0; i < N; ++i) m.want[i] = m.get(i);
  se::Descriptor d; garbage(d); se::describe_user_storage(*b, d); REQUIRE(g, d.storage_size >= N, "storage of " << d.storage_size); REQUIRE(g, d.value_type == se::type_info<T>::value && d.dimensions == D, "described as " << show(d)); b->decrement_count();
  judge(g, d, kind<T>::value); if (g.failed) return; load_any<D, T, O>(g, d, m, a, std::integral_constant<bool, scal<T>::cplx>()); if (N > 1) g.nontrivial();
}

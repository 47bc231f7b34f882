// C19 layouts: where blocks keep their elements
#include "c16_user.hpp"
namespace dda = vsip::dda;
template <class F, int... I> void one_of(pbt::Gen &g, F const &f, std::integer_sequence<int, I...>)
{ int k = g.draw(sizeof...(I)); int x[] = {(k == I ? (f(std::integral_constant<int, I>()), 0) : 0)...}; (void)x; }
template <int N, class F> void one_of(pbt::Gen &g, F const &f) { one_of(g, f, std::make_integer_sequence<int, N>()); }
template <pack_type P> struct align_of { enum { value = P >= aligned_8 ? (int)P : 0 }; };
// strides and alignment as the layout promises
template <int D> bool promise(pbt::Gen &g, dimension_type const *o, size_t const *n, long const *s, unsigned alignment, size_t elem, bool dense_)
{
  if (s[o[D - 1]] != 1 && n[o[D - 1]] > 1) { g.fail("the minor dimension has stride " + std::to_string(s[o[D - 1]])); return false; }
  long p = 1;
  for (int i = D; i--;)
  {
    long st = s[o[i]], nn = n[o[i]]; if (nn > 1 && (dense_ ? st != p : st < p)) { std::ostringstream e; e << "dimension " << o[i] << " has stride " << st << (dense_ ? ", not " : ", less than ") << p; g.fail(e.str()); return false; }
    if (i < D - 1 && nn > 1 && alignment && st * elem % alignment) { std::ostringstream e; e << "dimension " << o[i] << " has stride " << st << ": rows are not aligned to " << alignment; g.fail(e.str()); return false; }
    p = (nn > 1 ? st : p) * nn;
  }
  return true;
}
template <class X> void dims(dimension_type *d) { d[0] = X::impl_dim0; d[1] = X::impl_dim1; d[2] = X::impl_dim2; }
inline void sizes(pbt::Gen &g, int D, size_t *n, size_t big) { n[0] = n[1] = n[2] = 1; for (int d = 0; d < D; ++d) n[d] = D == 1 ? 1 + g.draw(70) : D == 2 ? g.pick({(size_t)1, (size_t)2, (size_t)3, (size_t)7, (size_t)8, (size_t)9, (size_t)15, (size_t)16, (size_t)17, (size_t)(1 + g.draw(big))}) : 1 + g.draw(g.flip(1, 4) ? 18 : 5); g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << ' '; }
template <class B> struct refs_ok { enum { value = !scal<typename B::value_type>::cplx || get_block_layout<B>::storage_format == array }; };
template <class B, class T> void bref(B &b, size_t i, size_t j, size_t k, T v, std::integral_constant<int, 1>, std::true_type) { b.ref(i) = v; } template <class B, class T> void bref(B &b, size_t i, size_t j, size_t k, T v, std::integral_constant<int, 2>, std::true_type) { b.ref(i, j) = v; } template <class B, class T> void bref(B &b, size_t i, size_t j, size_t k, T v, std::integral_constant<int, 3>, std::true_type) { b.ref(i, j, k) = v; }
template <class B, class T, int D> void bref(B &b, size_t i, size_t j, size_t k, T v, std::integral_constant<int, D> d, std::false_type) { bput(b, i, j, k, v, d); }
template <class P, class T> T rawget(P p, long o, T *) { return p[o]; } template <class S> std::complex<S> rawget(S *p, long o, std::complex<S> *) { return std::complex<S>(p[2 * o], p[2 * o + 1]); } template <class S> std::complex<S> rawget(S const *p, long o, std::complex<S> *) { return std::complex<S>(p[2 * o], p[2 * o + 1]); } template <class S> std::complex<S> rawget(std::complex<S> *p, long o, std::complex<S> *) { return p[o]; } template <class S> std::complex<S> rawget(std::complex<S> const *p, long o, std::complex<S> *) { return p[o]; } template <class Q, class S> std::complex<S> rawget(std::pair<Q, Q> p, long o, std::complex<S> *) { return std::complex<S>(p.first[o], p.second[o]); }
template <class P> size_t addr_(P p) { return (size_t)p; } template <class Q> size_t addr_(std::pair<Q, Q> p) { return (size_t)p.first | (size_t)p.second; }
template <class B> void a_block(pbt::Gen &g)
{
  typedef typename B::value_type T; enum { D = B::dim }; std::integral_constant<int, D> Dim; std::integral_constant<bool, refs_ok<B>::value> R; typedef typename View_<D, T, B>::type V;
  typedef typename get_block_layout<B>::type L; typedef typename L::order_type O; dimension_type o[3]; dims<O>(o); size_t n[3]; sizes(g, D, n, 40); size_t N = n[0] * n[1] * n[2];
  unsigned al = align_of<L::packing>::value; size_t elem = sizeof(T);
  bool split = L::storage_format == split_complex && scal<T>::cplx; 
  // on memory of its own, or on user memory of just the size the strides need
  std::unique_ptr<Mem<T>> mem; B *b; Arr<T> m(n[0], n[1], n[2]); bool known = false; T v0 = pbt::make<T>::from(g.draw(50), 1, pbt::signed_int); int how = g.draw(4);
  if (how == 0) { B *tmp = new B(dom_of<D>(n)); long span = 1; { dda::Data<B, dda::in> d(*tmp); for (int i = 0; i < D; ++i) span += (long)(n[i] - 1) * d.stride(i); } tmp->decrement_count(); if (L::packing != dense) span = ovxx::Applied_layout<L>(dom_of<D>(n)).total_size();
    mem.reset(new Mem<T>(split ? SPLIT : L::storage_format == interleaved_complex ? INTER : ARRAY, span)); b = Calls<B, T>::make(dom_of<D>(n), *mem, true); b->admit(false); g.note() << "on user memory; "; }
  else if (how == 1) { b = new B(dom_of<D>(n), v0); std::fill(m.v.begin(), m.v.end(), v0); known = true; }
  else b = new B(dom_of<D>(n));
  V view(*b); b->decrement_count();
  REQUIRE(g, b->size() == N && b->size(1, 0) == N, "size() is " << b->size()); for (int i = 0; i < D; ++i) REQUIRE(g, b->size(D, i) == n[i], "size(" << i << ") is " << b->size(D, i));
  auto whole = [&](char const *when) {
    for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k)
    { T x = bget(*b, i, j, k, Dim), w = m.at(i, j, k); if (!(x == w)) { std::ostringstream e; e << when << ": element (" << i << "," << j << "," << k << ") is " << pbt::show(x) << ", not " << pbt::show(w); g.fail(e.str()); return; } }
  };
  // unique values, written in any order
  if (!known || g.flip()) {
    std::vector<size_t> perm(N); for (size_t e = 0; e < N; ++e) perm[e] = e; uint64_t s = g.dataseed(); for (size_t e = N; e-- > 1;) std::swap(perm[e], perm[pbt::mix(s * 7919 + e) % (e + 1)]);
    for (size_t q = 0; q < N; ++q) { size_t e = perm[q], k = e % n[2], j = e / n[2] % n[1], i = e / (n[2] * n[1]); T x = T(e % 119 + 1 + e / 119 % 7); m.v[e] = x; if (e & 1) bput(*b, i, j, k, x, Dim); else bref(*b, i, j, k, x, Dim, R); }
  }
  whole("when written"); if (g.failed) return;
  for (int q = g.draw(6); q--;)
  {
    size_t e = g.draw(N), k = e % n[2], j = e / n[2] % n[1], i = e / (n[2] * n[1]); T x = pbt::make<T>::from(g.draw(60), 2, pbt::signed_int); int op = g.draw(5); m.v[e] = x;
    if (op == 0) bput(*b, i, j, k, x, Dim); else if (op == 1) bref(*b, i, j, k, x, Dim, R); else if (op == 2) vcheck(view, i, j, k, x, Dim); else if (op == 3) { view = x; std::fill(m.v.begin(), m.v.end(), x); }
    else if (L::packing == dense || D == 1) { size_t xs[3] = {i, j, k}, lin = 0; for (int d = 0; d < D; ++d) lin = lin * n[o[d]] + xs[o[d]]; REQUIRE(g, b->get(lin) == bget(*b, i, j, k, Dim), "get(" << lin << ") is not the element in storage order"); b->put(lin, x); }
    else bput(*b, i, j, k, x, Dim);
    whole("after an update"); if (g.failed) return;
  }
  { // the storage itself
    dda::Data<B, dda::in> d(*b); REQUIRE(g, d.cost() == 0, "access to a block as it lies costs"); long s[3] = {0, 0, 0}; for (int i = 0; i < D; ++i) s[i] = d.stride(i);
    if (!promise<D>(g, o, n, s, al, elem, L::packing == dense)) return; auto p = d.ptr();
    for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k) { T x = rawget(p, (long)i * s[0] + (long)j * s[1] + (long)k * s[2], (T *)0); REQUIRE(g, x == m.at(i, j, k), "element (" << i << "," << j << "," << k << ") in storage is " << pbt::show(x)); }
    if (how && al && al <= 32) REQUIRE(g, addr_(p) % al == 0, "storage is not aligned to " << al);
  }
  if (mem) for (size_t i = 0; i < (size_t)Mem<T>::G; ++i) { auto G = typename scal<T>::type(-77); REQUIRE(g, mem->a[i] == G && mem->a[mem->la - 1 - i] == G && (!mem->b || (mem->b[i] == G && mem->b[mem->lb - 1 - i] == G)), "memory outside of the block was written"); }
  if (N > 1) g.nontrivial();
}
template <class T, class... L> struct list_ {}; template <int I, class T, class... L> struct nth_; template <int I, class T, class A, class... L> struct nth_<I, T, A, L...> : nth_<I - 1, T, L...> {}; template <class T, class A, class... L> struct nth_<0, T, A, L...> { typedef ovxx::Strided<A::dim, T, A> type; typedef A layout; };
template <class T, class... L> void blocks(pbt::Gen &g) { one_of<sizeof...(L)>(g, [&](auto I) { typedef typename nth_<decltype(I)::value, T, L...>::type B; g.note() << "layout " << decltype(I)::value << ' '; a_block<B>(g); }); }
template <class A> size_t idx_(A const &a, size_t i, size_t j, size_t k, std::integral_constant<int, 1>) { return a.index(Index<1>(i)); } template <class A> size_t idx_(A const &a, size_t i, size_t j, size_t k, std::integral_constant<int, 2>) { return a.index(Index<2>(i, j)); } template <class A> size_t idx_(A const &a, size_t i, size_t j, size_t k, std::integral_constant<int, 3>) { return a.index(Index<3>(i, j, k)); }
template <class A> size_t idy_(A const &a, size_t i, size_t j, size_t k, std::integral_constant<int, 1>) { return a.index(i); } template <class A> size_t idy_(A const &a, size_t i, size_t j, size_t k, std::integral_constant<int, 2>) { return a.index(i, j); } template <class A> size_t idy_(A const &a, size_t i, size_t j, size_t k, std::integral_constant<int, 3>) { return a.index(i, j, k); }
template <class A> A sizes_of(size_t const *n, std::integral_constant<int, 1>) { return A(n[0]); } template <class A> A sizes_of(size_t const *n, std::integral_constant<int, 2>) { return A(n[0], n[1]); } template <class A> A sizes_of(size_t const *n, std::integral_constant<int, 3>) { return A(Domain<3>(n[0], n[1], n[2])); }
template <int D> ovxx::Length<D> len_of(size_t const *n); template <> inline ovxx::Length<1> len_of<1>(size_t const *n) { return ovxx::Length<1>(n[0]); } template <> inline ovxx::Length<2> len_of<2>(size_t const *n) { return ovxx::Length<2>(n[0], n[1]); } template <> inline ovxx::Length<3> len_of<3>(size_t const *n) { return ovxx::Length<3>(n[0], n[1], n[2]); }
// applied layouts, as used by the library
template <class A, int D> void injective(pbt::Gen &g, A const &a, size_t const *n, dimension_type const *o, unsigned al, size_t elem, bool dense_)
{
  long s[3] = {0, 0, 0}; for (int i = 0; i < D; ++i) { s[i] = a.stride(i); REQUIRE(g, a.size(i) == n[i], "size(" << i << ") is " << a.size(i)); } if (!promise<D>(g, o, n, s, al, elem, dense_)) return;
  size_t total = a.total_size(), N = n[0] * n[1] * n[2]; REQUIRE(g, total >= N, "total_size() is " << total << " for " << N << " elements"); if (dense_) REQUIRE(g, total == N, "total_size() is " << total); std::vector<char> seen(total);
  for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < n[2]; ++k)
  { size_t x = idx_(a, i, j, k, std::integral_constant<int, D>()); REQUIRE(g, (long)x == (long)i * s[0] + (long)j * s[1] + (long)k * s[2], "index(" << i << "," << j << "," << k << ") is " << x << ": not as the strides have it"); REQUIRE(g, x < total, "index(" << i << "," << j << "," << k << ") is " << x << ", outside of " << total); REQUIRE(g, !seen[x], "(" << i << "," << j << "," << k << ") shares its place with another element"); seen[x] = 1; }
}
template <class L> void applied1(pbt::Gen &g)
{
  enum { D = L::dim }; std::integral_constant<int, D> Dim; size_t n[3]; sizes(g, D, n, 300); dimension_type o[3]; dims<typename L::order_type>(o); typedef ovxx::Applied_layout<L> A; int c = g.draw(3);
  A a = c == 0 ? sizes_of<A>(n, Dim) : c == 1 ? A(len_of<D>(n)) : A(dom_of<D>(n)); g.note() << (c == 0 ? "from sizes; " : c == 1 ? "from lengths; " : "from a domain; ");
  injective<A, D>(g, a, n, o, align_of<L::packing>::value, 1, L::packing == dense); if (g.failed) return; size_t i = g.draw(n[0]), j = g.draw(n[1]), k = g.draw(n[2]); REQUIRE(g, idx_(a, i, j, k, Dim) == idy_(a, i, j, k, Dim), "index(Index) and index(i,...) differ"); if (n[0] * n[1] * n[2] > 1) g.nontrivial();
}
template <class... L> void applied(pbt::Gen &g) { one_of<sizeof...(L)>(g, [&](auto I) { g.note() << "layout " << decltype(I)::value << ' '; applied1<typename nth_<decltype(I)::value, char, L...>::layout>(g); }); }
template <int D> void runtime(pbt::Gen &g)
{
  size_t n[3]; sizes(g, D, n, 60); dimension_type o[3] = {0, 1, 2}; for (int d = D - 1; d > 0; --d) std::swap(o[d], o[g.draw(d + 1)]); int pk = g.draw(3); size_t elem = g.pick({1, 2, 4, 8, 16}); unsigned al = pk == 2 ? g.pick({16u, 32u, 64u, 128u, 256u, 512u, 1024u}) : 0;
  ovxx::Rt_layout<D> r(pk == 0 ? dense : pk == 1 ? unit_stride : pack_type(al), ovxx::Rt_tuple(o[0], o[1], o[2]), g.pick({array, split_complex, interleaved_complex}), al); g.note() << "order " << o[0] << o[1] << o[2] << " alignment " << al << " element " << elem; typedef ovxx::Applied_layout<ovxx::Rt_layout<D>> A;
  A a = g.flip() ? A(r, len_of<D>(n), elem) : A(r, dom_of<D>(n), elem); injective<A, D>(g, a, n, o, al, elem, pk < 2); REQUIRE(g, a.storage_format() == r.storage_format, "another storage format"); if (n[0] * n[1] * n[2] > 1) g.nontrivial();
}
template <dimension_type A, dimension_type B, dimension_type C, pack_type P, storage_format_type S = array> using L3 = Layout<3, tuple<A, B, C>, P, S>;

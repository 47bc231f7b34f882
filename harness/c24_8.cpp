#include "c24_par.hpp"
#include <vsip/dda.hpp>
// distributed data seen locally: copies to and from local views, direct data access
typedef Map<B, W, W> MB; typedef Map<C, W, W> MC; typedef Map<B, B, W> BB; typedef Map<C, C, W> CC; typedef Replicated_map<1> R1; typedef Replicated_map<2> R2; typedef Map<B, B, B> BBB; typedef std::complex<float> cf;
template <int D> struct lv; template <> struct lv<1> { template <class T, class O> static auto make(size_t const *n) { return Vector<T>(n[0]); } }; template <> struct lv<2> { template <class T, class O> static auto make(size_t const *n) { return Matrix<T, Dense<2, T, O>>(n[0], n[1]); } }; template <> struct lv<3> { template <class T, class O> static auto make(size_t const *n) { return Tensor<T, Dense<3, T, O>>(n[0], n[1], n[2]); } };
template <class S, class O> void local_copy(pbt::Gen &g)
{
  int const D = S::dim; typedef typename S::value_type T; size_t m[3] = {1, 1, 1}; shape<D>(g, m); size_t total = m[0] * m[1] * m[2]; for (int i = 0; i < D; ++i) g.note() << m[i] << ' '; S s(g, m); auto l = lv<D>::template make<T, O>(m); long salt = g.range(1, 5000); bool to = g.flip(); g.note() << (to ? "to local" : "from local");
  auto lval = [&](size_t i) { return val<T>::of(70000 + 7 * i); };
  for (size_t i = 0; i < total; ++i) pput(l, unlinear<D>(i, m), T(lval(i))); s.w.fill(salt); auto v = s.view();
  if (to) { ovxx::parallel::assign_local(l, v); s.w.check(g, "source"); for (size_t i = 0; i < total; ++i) { Ix<D> x = unlinear<D>(i, m); T a = pget(l, x), b = s.w.ref[s.pos(x)]; REQUIRE(g, a == b, "local element " << str<D>(x) << " is " << a << ", not " << b); if (!(a == b)) break; } }
  else { ovxx::parallel::assign_local(v, l); for (size_t i = 0; i < total; ++i) s.w.ref[s.pos(unlinear<D>(i, m))] = lval(i); s.w.check(g, "destination"); }
  if (num_processors() > 1 && total > 1) g.nontrivial(); g.label(to ? "to local" : "from local");
}
template <class P> struct geto { template <class T> static T get(T const *p, ptrdiff_t i) { return p[i]; } };
template <class T> T dget(T const *p, ptrdiff_t i) { return p[i]; } template <class T> std::complex<T> dget(std::pair<T const *, T const *> p, ptrdiff_t i) { return std::complex<T>(p.first[i], p.second[i]); } template <class T> std::complex<T> dget(std::pair<T *, T *> p, ptrdiff_t i) { return std::complex<T>(p.first[i], p.second[i]); }
template <class T> void dput(T *p, ptrdiff_t i, T a) { p[i] = a; } template <class T> void dput(std::pair<T *, T *> p, ptrdiff_t i, std::complex<T> a) { p.first[i] = a.real(); p.second[i] = a.imag(); }
template <class S, class L> void data_access(pbt::Gen &g)
{
  int const D = S::dim; typedef typename S::value_type T; size_t m[3] = {1, 1, 1}; shape<D>(g, m); size_t total = m[0] * m[1] * m[2]; for (int i = 0; i < D; ++i) g.note() << m[i] << ' '; S s(g, m); s.w.fill(g.range(1, 5000)); auto v = s.view(); typedef typename std::remove_reference<decltype(v.block())>::type Bk;
  unsigned how = g.draw(3); g.note() << (how == 0 ? "in" : how == 1 ? "out" : "inout"); auto at = [&](auto &d, size_t i) { Ix<D> x = unlinear<D>(i, m); ptrdiff_t o = 0; for (int k = 0; k < D; ++k) o += d.stride(k) * (ptrdiff_t)x[k]; return o; };
  auto seen = [&](auto &d) { for (int k = 0; k < D; ++k) REQUIRE(g, d.size(k) == m[k], "the data has size " << d.size(k) << " in dimension " << k); if (!g.failed) for (size_t i = 0; i < total; ++i) { T a = dget(d.ptr(), at(d, i)), b = s.w.ref[s.pos(unlinear<D>(i, m))]; REQUIRE(g, a == b, "element " << str<D>(unlinear<D>(i, m)) << " of the data is " << a << ", not " << b); if (!(a == b)) break; } };
  auto write = [&](auto &d, long salt) { for (size_t i = 0; i < total; ++i) { T a = val<T>::of(salt + 5 * i); dput(d.ptr(), at(d, i), a); s.w.ref[s.pos(unlinear<D>(i, m))] = a; } };
  if (how == 0) { dda::Data<Bk, dda::in, L> d(v.block()); seen(d); } else if (how == 1) { dda::Data<Bk, dda::out, L> d(v.block()); write(d, 40000); } else { dda::Data<Bk, dda::inout, L> d(v.block()); seen(d); write(d, 30000); }
  s.w.check(g, "block afterwards"); if (num_processors() > 1 && total > 1) g.nontrivial();
}
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class O = row2_type> using P2 = Plain<2, int, DB<2, int, M, O>>; template <class M, class O = row3_type> using P3 = Plain<3, int, DB<3, int, M, O>>;
PROP(local_vector_block, 150, 5000) { local_copy<P1<MB>, row1_type>(g); }
PROP(local_vector_cyclic, 150, 5000) { local_copy<P1<MC, double>, row1_type>(g); }
PROP(local_vector_replicated, 150, 5000) { local_copy<P1<R1, cf>, row1_type>(g); }
PROP(local_matrix_block, 150, 5000) { local_copy<P2<BB>, col2_type>(g); }
PROP(local_matrix_cyclic, 150, 5000) { local_copy<P2<CC, col2_type>, row2_type>(g); }
PROP(local_subset, 150, 5000) { local_copy<Part<2, int, DB<2, int, BB>>, row2_type>(g); }
PROP(local_row, 150, 5000) { local_copy<Row<int, DB<2, int, BB>>, row1_type>(g); }
PROP(local_tensor, 150, 5000) { local_copy<P3<BBB>, tuple<1, 2, 0>>(g); }
PROP(data_vector_block, 150, 5000) { data_access<P1<MB>, Layout<1, row1_type, dense, array>>(g); }
PROP(data_vector_cyclic, 150, 5000) { data_access<P1<MC, cf>, Layout<1, row1_type, dense, array>>(g); }
PROP(data_vector_split, 150, 5000) { data_access<P1<MB, cf>, Layout<1, row1_type, dense, split_complex>>(g); }
PROP(data_matrix_block, 150, 5000) { data_access<P2<BB>, Layout<2, row2_type, dense, array>>(g); }
PROP(data_matrix_transposed, 150, 5000) { data_access<P2<CC>, Layout<2, col2_type, dense, array>>(g); }
PROP(data_matrix_aligned, 150, 5000) { data_access<P2<BB>, Layout<2, row2_type, aligned_32, array>>(g); }
PROP(data_tensor, 150, 5000) { data_access<P3<BBB>, Layout<3, row3_type, dense, array>>(g); }

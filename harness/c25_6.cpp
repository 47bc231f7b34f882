// reductions over distributed views and expressions, element access, generators
#include "c25_par.hpp"
typedef Map<B, B, W> BB; typedef Map<W, B, W> WB; typedef Map<C, C, W> CC; typedef Map<B, W, W> BW; typedef Map<B, B, B> BBB; typedef Map<B, W, W> BWW; typedef Replicated_map<2> R2;
typedef complex<float> cf; typedef complex<double> cd;
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int> using S1 = Part<1, T, DB<1, T, M>>; template <class M, class T = int, class O = row2_type> using Rw = Row<T, DB<2, T, M, O>>; template <class M, class T = int, class O = row2_type> using Cl = Col<T, DB<2, T, M, O>>;
template <class M, class T = int, class O = row2_type> using P2 = Plain<2, T, DB<2, T, M, O>>; template <class M, class T = int, class O = row2_type> using S2 = Part<2, T, DB<2, T, M, O>>; template <class M, class T = int, class O = row2_type> using T2 = Trans<T, DB<2, T, M, O>>; template <int F, class M, class O = row3_type> using Sl = Slice<F, int, DB<3, int, M, O>>;
template <class M, class T = int> using P3 = Plain<3, T, DB<3, T, M>>; template <class M, class T = int> using S3 = Part<3, T, DB<3, T, M>>;
template <int D> struct Shaped { size_t m[3] = {1, 1, 1}; struct S { S(pbt::Gen &g, size_t *m) { shape<D>(g, m); size_t lim = D == 1 ? 40 : D == 2 ? 9 : 5; for (int i = 0; i < D; ++i) { m[i] = 1 + m[i] % lim; g.note() << m[i] << ' '; } g.note() << ": "; } } s; size_t total; Shaped(pbt::Gen &g) : s(g, m), total(m[0] * m[1] * m[2]) {} };
template <class T> double num(T a) { return double(a); }
template <class V, class T, int D> void numeric(pbt::Gen &g, V v, std::vector<T> const &a, size_t const *m, std::integral_constant<int, D>)
{
  size_t n = a.size(); double s = 0, q = 0; size_t hi = 0, lo = 0, hm = 0, lm = 0; for (size_t i = 0; i < n; ++i) { s += a[i]; q += double(a[i]) * a[i]; if (a[i] > a[hi]) hi = i; if (a[i] < a[lo]) lo = i; }
  (void)hm; (void)lm; switch (g.draw(6))
  {
  case 0: { g.label("sumval"); REQUIRE(g, num(sumval(v)) == s, "sumval"); break; }
  case 1: { g.label("sumsqval"); REQUIRE(g, num(sumsqval(v)) == q, "sumsqval " << sumsqval(v) << " is not " << q); break; }
  case 2: { g.label("maxval"); Index<D> x; T r = maxval(v, x); size_t k = 0; for (int i = 0; i < D; ++i) k = k * m[i] + x[i]; REQUIRE(g, r == a[hi] && k < n && a[k] == a[hi], "maxval is " << r << " at " << k << ", not " << a[hi] << " at " << hi); break; }
  case 3: { g.label("minval"); Index<D> x; T r = minval(v, x); size_t k = 0; for (int i = 0; i < D; ++i) k = k * m[i] + x[i]; REQUIRE(g, r == a[lo] && k < n && a[k] == a[lo], "minval is " << r << " at " << k << ", not " << a[lo] << " at " << lo); break; }
  case 4: { g.label("meanval"); double w = double(s) / n; REQUIRE(g, std::abs(double(meanval(v)) - (std::is_integral<T>::value ? double(long(s) / (long)n) : w)) <= 1e-5 * (1 + std::abs(w)), "meanval " << meanval(v) << " is not " << w); break; }
  default: { g.label("sum of an expression"); REQUIRE(g, num(sumval(v * T(2) - v)) == s, "sumval of an expression"); break; }
  }
}
template <class Sd> void reduced(pbt::Gen &g)
{
  int const D = Sd::dim; typedef typename Sd::value_type T; Shaped<D> sh(g); Sd s(g, sh.m); s.w.fill(g.range(1, 50)); auto v = s.view(); std::vector<T> a(sh.total); for (size_t i = 0; i < sh.total; ++i) a[i] = acc<Sd>::get(s, s.pos(unlinear<D>(i, sh.m)));
  numeric(g, v, a, sh.m, std::integral_constant<int, D>()); s.w.check(g, "reduced view"); if (num_processors() > 1 && sh.total > 1) g.nontrivial();
}
PROP(reduce_vector_block, 40, 2000) { reduced<P1<MB>>(g); }
PROP(reduce_vector_cyclic, 40, 2000) { reduced<P1<MC>>(g); }
PROP(reduce_vector_double, 40, 2000) { reduced<P1<MC, double>>(g); }
PROP(reduce_subset, 40, 2000) { reduced<S1<MB>>(g); }
PROP(reduce_replicated, 40, 2000) { reduced<P1<MR>>(g); }
PROP(reduce_row, 40, 2000) { reduced<Rw<BB>>(g); }
PROP(reduce_column, 40, 2000) { reduced<Cl<BW>>(g); }
PROP(reduce_matrix, 40, 2000) { reduced<P2<BB>>(g); }
PROP(reduce_matrix_cyclic, 40, 2000) { reduced<P2<CC, float, col2_type>>(g); }
PROP(reduce_matrix_subset, 40, 2000) { reduced<S2<BB>>(g); }
PROP(reduce_transposed, 40, 2000) { reduced<T2<WB>>(g); }
PROP(reduce_slice, 40, 2000) { reduced<Sl<1, BBB>>(g); }
PROP(reduce_tensor, 40, 2000) { reduced<P3<BBB>>(g); }
PROP(reduce_tensor_subset, 40, 2000) { reduced<S3<BWW>>(g); }
template <class SA, class SB> void logical(pbt::Gen &g)
{
  int const D = SA::dim; Shaped<D> sh(g); SA a(g, sh.m); SB b(g, sh.m); long sa = g.range(1, 50); a.w.fill(sa); if (g.flip() && a.w.total == b.w.total) b.w.fill(sa); else b.w.fill(g.range(1, 50)); auto va = a.view(); auto vb = b.view(); bool all = true, any = false; double dot = 0; for (size_t i = 0; i < sh.total; ++i) { Ix<D> x = unlinear<D>(i, sh.m); auto p = acc<SA>::get(a, a.pos(x)), q = acc<SB>::get(b, b.pos(x)); all &= p == q; any |= p < q; dot += double(p) * q; }
  switch (g.draw(3)) { case 0: g.label("alltrue"); REQUIRE(g, alltrue(va == vb) == all, "alltrue"); break; case 1: g.label("anytrue"); REQUIRE(g, anytrue(va < vb) == any, "anytrue"); break; default: g.label("sum of a product"); REQUIRE(g, double(sumval(va * vb)) == dot, "sum of the product " << sumval(va * vb) << " is not " << dot); }
  if (num_processors() > 1 && sh.total > 1) g.nontrivial();
}
PROP(logical_vectors, 40, 2000) { logical<P1<MB>, P1<MC>>(g); }
PROP(logical_subset, 40, 2000) { logical<S1<MB>, P1<MR>>(g); }
PROP(logical_matrices, 40, 2000) { logical<P2<BB>, P2<CC>>(g); }
PROP(logical_transposed, 40, 2000) { logical<P2<R2>, T2<BB>>(g); }
PROP(logical_tensors, 40, 2000) { logical<P3<BBB>, P3<BWW>>(g); }
// every process calls get and put with the same arguments; get answers the same on all
template <class Sd> void access(pbt::Gen &g)
{
  int const D = Sd::dim; typedef typename Sd::value_type T; Shaped<D> sh(g); Sd s(g, sh.m); s.w.fill(g.range(1, 50)); auto v = s.view(); int k = 2 + g.draw(12);
  for (int j = 0; j < k; ++j) { Ix<D> x = unlinear<D>(g.draw(sh.total), sh.m); size_t p = s.pos(x); if (g.flip()) { T a = val<T>::of(g.range(1, 5000)); g.note() << "put " << str<D>(x) << "; "; pput(v, x, a); acc<Sd>::put(s, p, a); } else { T a = pget(v, x); REQUIRE(g, a == acc<Sd>::get(s, p), "get at " << str<D>(x) << " is " << a << ", not " << acc<Sd>::get(s, p) << " on process " << local_processor()); } }
  s.w.check(g, "after get and put"); if (num_processors() > 1 && sh.total > 1) g.nontrivial();
}
PROP(access_vector, 60, 3000) { access<P1<MB>>(g); }
PROP(access_cyclic, 60, 3000) { access<P1<MC>>(g); }
PROP(access_complex, 60, 3000) { access<P1<MC, cd>>(g); }
PROP(access_bool, 60, 3000) { access<P1<MB, bool>>(g); }
PROP(access_replicated, 60, 3000) { access<P1<MR>>(g); }
PROP(access_subset, 60, 3000) { access<S1<MB>>(g); }
PROP(access_matrix, 60, 3000) { access<P2<BB>>(g); }
PROP(access_matrix_cyclic, 60, 3000) { access<P2<CC, cf, col2_type>>(g); }
PROP(access_row, 60, 3000) { access<Rw<CC>>(g); }
PROP(access_transposed, 60, 3000) { access<T2<WB>>(g); }
PROP(access_slice, 60, 3000) { access<Sl<0, BBB>>(g); }
PROP(access_tensor, 60, 3000) { access<P3<BBB>>(g); }
PROP(access_tensor_subset, 60, 3000) { access<S3<BBB, float>>(g); }

// computing with subviews of transposes, rows and columns
#include "c25_par.hpp"
#include "c24_sub.hpp"
typedef Map<B, B, W> BB; typedef Map<B, W, W> BW; typedef Map<W, B, W> WB; typedef Map<C, C, W> CC;
template <class M, class O = row2_type> using P2 = Plain<2, int, DB<2, int, M, O>>; template <class M, class O = row2_type> using ST = SubTrans<int, DB<2, int, M, O>>; template <class M, class O = row2_type> using TS = TransSub<int, DB<2, int, M, O>>; template <class M, class O = row2_type> using TT = Twice<int, DB<2, int, M, O>>;
template <class M, class O = row2_type> using RS = Sub1<Row<int, DB<2, int, M, O>>>; template <class M, class O = row2_type> using CS = Sub1<Col<int, DB<2, int, M, O>>>; template <class M> using P1 = Plain<1, int, DB<1, int, M>>;
typedef ops<op_neg, op_nest, op_addto, op_ssub, op_fill> few;
template <class Sd> void seen(pbt::Gen &g)
{
  int const D = Sd::dim; size_t m[3] = {1, 1, 1}; shape<D>(g, m); for (int i = 0; i < D; ++i) { m[i] = 1 + m[i] % 12; g.note() << m[i] << ' '; } size_t total = m[0] * m[1]; Sd s(g, m); s.w.fill(g.range(1, 900)); auto v = s.view(); long sum = 0, hi = -1; for (size_t i = 0; i < total; ++i) { long a = s.w.ref[s.pos(unlinear<D>(i, m))]; sum += a; hi = std::max(hi, a); }
  REQUIRE(g, sumval(v) == sum, "sumval is " << sumval(v) << ", not " << sum); Index<D> x; long r = maxval(v, x); size_t k = 0; for (int i = 0; i < D; ++i) k = k * m[i] + x[i]; REQUIRE(g, r == hi && k < total && s.w.ref[s.pos(unlinear<D>(k, m))] == hi, "maxval is " << r << " at " << k << ", not " << hi);
  for (int t = 0; t < 3; ++t) { size_t i = g.draw(total); Ix<D> y = unlinear<D>(i, m); int a = pget(v, y), b = s.w.ref[s.pos(y)]; REQUIRE(g, a == b, "element " << str<D>(y) << " is " << a << ", not " << b); if (g.flip()) { int w = g.range(1000, 9000); pput(v, y, w); s.w.ref[s.pos(y)] = w; } }
  s.w.check(g, "block"); if (num_processors() > 1 && total > 1) g.nontrivial();
}
PROP(subset_of_transpose, 80, 3000) { zipped<few, P2<BB>, ST<BB>, P2<WB>>(g); }
PROP(subset_of_transpose_to, 80, 3000) { zipped<few, ST<BW>, ST<WB>, P2<CC>>(g); }
PROP(transpose_of_subset, 80, 3000) { zipped<few, TS<BB>, P2<BW, col2_type>, TS<WB>>(g); }
PROP(subset_of_row_and_column, 80, 3000) { zipped<few, RS<BB>, CS<BB>, P1<Map<C, W, W>>>(g); }
PROP(seen_subset_of_transpose, 60, 3000) { seen<ST<BB>>(g); }
PROP(seen_transpose_of_subset, 60, 3000) { seen<TS<WB, col2_type>>(g); }
PROP(seen_subset_of_row, 60, 3000) { seen<RS<WB>>(g); }
PROP(seen_subset_of_column, 60, 3000) { seen<CS<BB>>(g); }

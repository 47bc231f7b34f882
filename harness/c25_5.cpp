// columns and slices of further maps in expressions
#include "c25_par.hpp"
typedef Map<B, B, B> BBB; typedef Map<W, B, B> WBB; typedef Map<B, W, B> BWB; typedef Map<B, B, W> BB; typedef Map<W, B, W> WB; typedef Map<B, W, W> BW; typedef Map<C, B, W> CB;
template <class M, class O = row2_type, class T = int> using P2 = Plain<2, T, DB<2, T, M, O>>; template <int F, class M, class O = row3_type> using Sl = Slice<F, int, DB<3, int, M, O>>;
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int, class O = row2_type> using Rw = Row<T, DB<2, T, M, O>>; template <class M, class T = int, class O = row2_type> using Cl = Col<T, DB<2, T, M, O>>;
typedef ops<op_neg, op_nest, op_addto, op_ma, op_ssub, op_fill, op_sinc, op_mul> few;
PROP(columns_of_rows, 150, 5000) { zipped<few, P1<MB>, Cl<BW>, Cl<WB>>(g); }
PROP(to_columns_of_rows, 150, 5000) { zipped<few, Cl<BW>, P1<MB>, Cl<CB>>(g); }
PROP(strided_slices, 100, 3000) { zipped<few, P2<BB>, Sl<0, BBB>, P2<WB>>(g); }
PROP(to_strided_slices, 100, 3000) { zipped<few, Sl<1, BBB>, P2<WB>, Sl<0, WBB>>(g); }
PROP(mixed_slices, 100, 3000) { zipped<few, P2<BB>, Sl<2, BWB>, P2<WB>>(g); }

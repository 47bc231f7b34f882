#include "c24_sub.hpp"
// subviews of subviews: of transposes, rows, columns and slices
typedef Map<B, B, W> BB; typedef Map<B, W, W> BW; typedef Map<W, B, W> WB; typedef Map<C, C, W> CC; typedef Map<B, B, B> BBB; typedef Map<W, B, B> WBB; typedef Replicated_map<2> R2;
template <class M, class O = row2_type> using P2 = Plain<2, int, DB<2, int, M, O>>; template <class M, class O = row2_type> using ST = SubTrans<int, DB<2, int, M, O>>; template <class M, class O = row2_type> using TS = TransSub<int, DB<2, int, M, O>>; template <class M, class O = row2_type> using TT = Twice<int, DB<2, int, M, O>>;
template <class M, class O = row2_type> using RS = Sub1<Row<int, DB<2, int, M, O>>>; template <class M, class O = row2_type> using CS = Sub1<Col<int, DB<2, int, M, O>>>; template <class M> using P1 = Plain<1, int, DB<1, int, M>>;
PROP(subset_of_transpose, 200, 6000) { assigned<P2<BB>, ST<BB>>(g); }
PROP(subset_of_transpose_into, 200, 6000) { assigned<ST<WB>, P2<BW, col2_type>>(g); }
PROP(subset_of_transpose_both, 200, 6000) { assigned<ST<BW, col2_type>, ST<BB>>(g); }
PROP(transpose_of_subset, 200, 6000) { assigned<TS<BB>, P2<CC>>(g); }
PROP(transpose_of_subset_from, 200, 6000) { assigned<ST<WB>, TS<BW>>(g); }
PROP(transposed_twice, 200, 6000) { assigned<TT<CC>, TT<BB, col2_type>>(g); }
PROP(subset_of_row, 200, 6000) { assigned<P1<Map<B, W, W>>, RS<BB>>(g); }
PROP(subset_of_column, 200, 6000) { assigned<CS<BB>, RS<WB, col2_type>>(g); }

// expressions over tensors and slices
#include "c25_par.hpp"
typedef Map<B, B, B> BBB; typedef Map<W, W, B> WWB; typedef Map<B, W, W> BWW; typedef Map<C, C, C> CCC; typedef Replicated_map<3> R; typedef Map<B, B, W> BB; typedef Map<W, B, W> WB;
template <class M, class O = row3_type, class T = int> using P3 = Plain<3, T, DB<3, T, M, O>>; template <class M, class O = row3_type, class T = int> using S3 = Part<3, T, DB<3, T, M, O>>;
template <class M, class O = row2_type, class T = int> using P2 = Plain<2, T, DB<2, T, M, O>>; template <int F, class M, class O = row3_type> using Sl = Slice<F, int, DB<3, int, M, O>>;
typedef ops<op_neg, op_nest, op_addto, op_ma, op_ssub, op_fill, op_sinc, op_mul> few;
PROP(tensors_same_kind, 100, 3000) { zipped<few, P3<BBB>, P3<BBB>, P3<BBB>>(g); }
PROP(tensors_mixed, 100, 3000) { zipped<few, P3<BWW>, P3<WWB>, P3<CCC>>(g); }
PROP(tensors_replicated, 100, 3000) { zipped<few, P3<R>, P3<BBB>, P3<BB>>(g); }
PROP(tensors_orders, 100, 3000) { zipped<few, P3<BBB, col3_type>, P3<WWB>, P3<R>>(g); }
PROP(tensors_subsets, 100, 3000) { zipped<few, S3<BBB>, P3<WWB>, S3<BWW>>(g); }
PROP(slices, 100, 3000) { zipped<few, P2<BB>, Sl<1, BBB, tuple<0, 2, 1>>, P2<WB>>(g); }
PROP(to_slices, 100, 3000) { zipped<few, Sl<2, BBB>, P2<BB>, Sl<0, BBB, col3_type>>(g); }

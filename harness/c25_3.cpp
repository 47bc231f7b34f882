// expressions over matrices
#include "c25_par.hpp"
typedef Map<B, B, W> BB; typedef Map<C, C, W> CC; typedef Map<W, B, W> WB; typedef Map<B, W, W> BW; typedef Map<B, C, W> BC; typedef Replicated_map<2> R; typedef Map<W, W, W> WW;
typedef complex<float> cf;
template <class M, class O = row2_type, class T = int> using P2 = Plain<2, T, DB<2, T, M, O>>; template <class M, class O = row2_type, class T = int> using T2 = Trans<T, DB<2, T, M, O>>; template <class M, class O = row2_type, class T = int> using S2 = Part<2, T, DB<2, T, M, O>>;
typedef ops<op_neg, op_nest, op_addto, op_ma, op_ssub, op_fill, op_sinc, op_mul> few;
PROP(matrices_same_kind, 120, 4000) { zipped<basic, P2<BB>, P2<BB>, P2<BB>>(g); }
PROP(matrices_corner_turn, 120, 4000) { zipped<few, P2<BW>, P2<WB>, P2<BW>>(g); }
PROP(matrices_orders, 120, 4000) { zipped<few, P2<BB, col2_type>, P2<BB>, P2<BW, col2_type>>(g); }
PROP(matrices_cyclic, 120, 4000) { zipped<few, P2<CC>, P2<BB>, P2<BC>>(g); }
PROP(matrices_replicated, 120, 4000) { zipped<few, P2<R>, P2<BB>, P2<R>>(g); }
PROP(matrices_from_replicated, 120, 4000) { zipped<few, P2<BB>, P2<R>, P2<WW>>(g); }
PROP(matrices_transposed, 120, 4000) { zipped<few, P2<BB>, T2<BB>, P2<WB>>(g); }
PROP(matrices_to_transposed, 120, 4000) { zipped<few, T2<BW>, P2<BB>, T2<WB>>(g); }
PROP(matrices_subsets, 120, 4000) { zipped<few, S2<BB>, S2<BB>, P2<WB>>(g); }
PROP(matrices_of_subsets, 120, 4000) { zipped<few, P2<BB>, S2<BW>, S2<WB>>(g); }
PROP(matrices_complex, 120, 4000) { zipped<cplx, P2<BB, row2_type, cf>, P2<CC, row2_type, cf>, P2<BB, col2_type, cf>>(g); }
PROP(matrices_float, 120, 4000) { zipped<more, P2<BC, row2_type, float>, P2<BB, row2_type, float>, S2<WB, row2_type, float>>(g); }

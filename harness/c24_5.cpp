#include "c24_par.hpp"
typedef Map<B, B, B> BBB; typedef Map<C, C, C> CCC; typedef Map<W, W, B> WWB; typedef Map<B, W, W> BWW; typedef Map<W, B, C> WBC; typedef Replicated_map<3> R;
template <class M, class O = row3_type> using P3 = Plain<3, int, DB<3, int, M, O>>; template <class M, class O = row3_type> using S3 = Part<3, int, DB<3, int, M, O>>;
PROP(tensor_corner_turn, 200, 6000) { assigned<P3<BWW>, P3<WWB>>(g); }
PROP(tensor_block_cyclic, 200, 6000) { assigned<P3<BBB>, P3<CCC, col3_type>>(g); }
PROP(tensor_cyclic_mixed, 200, 6000) { assigned<P3<CCC>, P3<WBC, tuple<1, 2, 0>>>(g); }
PROP(tensor_orders, 200, 6000) { assigned<P3<BBB, tuple<2, 0, 1>>, P3<WWB, tuple<0, 2, 1>>>(g); }
PROP(tensor_subset, 200, 6000) { assigned<S3<BBB>, S3<WWB, tuple<1, 0, 2>>>(g); }
PROP(tensor_replicated, 200, 6000) { assigned<P3<R>, S3<BBB, col3_type>>(g); }

#include "c24_par.hpp"
typedef Map<B, B, W> BB; typedef Map<C, C, W> CC; typedef Map<W, B, W> WB; typedef Map<B, W, W> BW; typedef Map<B, C, W> BC; typedef Replicated_map<2> R;
template <class M, class O = row2_type> using P2 = Plain<2, int, DB<2, int, M, O>>; template <class M, class O = row2_type> using T2 = Trans<int, DB<2, int, M, O>>;
PROP(matrix_corner_turn, 250, 8000) { assigned<P2<BW>, P2<WB>>(g); }
PROP(matrix_block_block, 250, 8000) { assigned<P2<BB>, P2<BB>>(g); }
PROP(matrix_cyclic_block, 250, 8000) { assigned<P2<CC>, P2<BB, col2_type>>(g); }
PROP(matrix_mixed_cyclic, 250, 8000) { assigned<P2<BC, col2_type>, P2<CC>>(g); }
PROP(matrix_replicated_block, 250, 8000) { assigned<P2<R>, P2<BB, col2_type>>(g); }
PROP(matrix_block_replicated, 250, 8000) { assigned<P2<BB, col2_type>, P2<R>>(g); }
PROP(matrix_transposed, 250, 8000) { assigned<P2<BB>, T2<BB>>(g); }
PROP(matrix_into_transposed, 250, 8000) { assigned<T2<WB>, P2<BC>>(g); }
PROP(matrix_transposed_cyclic, 250, 8000) { assigned<T2<CC>, T2<BC, col2_type>>(g); }

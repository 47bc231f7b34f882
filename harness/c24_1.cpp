#include "c24_par.hpp"
typedef Map<B, W, W> MB; typedef Map<C, W, W> MC; typedef Map<W, W, W> MW; typedef Replicated_map<1> MR;
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int> using S1 = Part<1, T, DB<1, T, M>>;
PROP(vector_block_block, 300, 10000) { assigned<P1<MB>, P1<MB>>(g); }
PROP(vector_block_cyclic, 300, 10000) { assigned<P1<MB>, P1<MC>>(g); }
PROP(vector_cyclic_block, 300, 10000) { assigned<P1<MC>, P1<MB>>(g); }
PROP(vector_cyclic_cyclic, 300, 10000) { assigned<P1<MC>, P1<MC>>(g); }
PROP(vector_replicated_block, 300, 10000) { assigned<P1<MR>, P1<MB>>(g); }
PROP(vector_block_replicated, 300, 10000) { assigned<P1<MB>, P1<MR>>(g); }
PROP(vector_replicated_cyclic, 300, 10000) { assigned<P1<MR>, P1<MC>>(g); }
PROP(vector_replicated_replicated, 300, 10000) { assigned<P1<MR>, P1<MR>>(g); }
PROP(vector_whole_block, 200, 10000) { assigned<P1<MW>, P1<MB>>(g); }

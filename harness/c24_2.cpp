#include "c24_par.hpp"
typedef Map<B, W, W> MB; typedef Map<C, W, W> MC; typedef Replicated_map<1> MR;
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int> using S1 = Part<1, T, DB<1, T, M>>;
PROP(subset_block_block, 300, 10000) { assigned<S1<MB>, S1<MB>>(g); }
PROP(subset_block_cyclic, 300, 10000) { assigned<S1<MB>, P1<MC>>(g); }
PROP(subset_to_cyclic, 300, 10000) { assigned<P1<MC>, S1<MB>>(g); }
PROP(subset_to_block, 300, 10000) { assigned<P1<MB>, S1<MB>>(g); }
PROP(subset_from_block, 300, 10000) { assigned<S1<MB>, P1<MB>>(g); }
PROP(subset_to_replicated, 300, 10000) { assigned<P1<MR>, S1<MB>>(g); }
PROP(subset_from_replicated, 300, 10000) { assigned<S1<MB>, P1<MR>>(g); }
PROP(subset_of_replicated, 300, 10000) { assigned<S1<MR>, P1<MB>>(g); }
PROP(subset_replicated_replicated, 300, 10000) { assigned<S1<MR>, S1<MR>>(g); }

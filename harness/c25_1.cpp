#include "c25_par.hpp"
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int> using S1 = Part<1, T, DB<1, T, M>>;
PROP(vectors_same_kind, 150, 5000) { zipped<basic, P1<MB>, P1<MB>, P1<MB>>(g); }
PROP(vectors_block_cyclic, 150, 5000) { zipped<basic, P1<MB>, P1<MC>, P1<MB>>(g); }
PROP(vectors_cyclic_block, 150, 5000) { zipped<basic, P1<MC>, P1<MB>, P1<MC>>(g); }
PROP(vectors_block_replicated, 150, 5000) { zipped<basic, P1<MB>, P1<MR>, P1<MB>>(g); }
PROP(vectors_replicated_block, 150, 5000) { zipped<basic, P1<MR>, P1<MB>, P1<MR>>(g); }
PROP(vectors_whole, 100, 5000) { zipped<basic, P1<MW>, P1<MB>, P1<MW>>(g); }

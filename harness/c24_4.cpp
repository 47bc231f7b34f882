#include "c24_par.hpp"
typedef Map<B, B, W> BB; typedef Map<W, B, W> WB; typedef Map<B, W, W> BW; typedef Map<C, C, W> CC; typedef Map<B, W, W> MB; typedef Map<C, W, W> MC; typedef Replicated_map<2> R;
template <class M, class O = row2_type> using P2 = Plain<2, int, DB<2, int, M, O>>; template <class M, class O = row2_type> using S2 = Part<2, int, DB<2, int, M, O>>;
template <class M> using P1 = Plain<1, int, DB<1, int, M>>; template <class M, class O = row2_type> using Rw = Row<int, DB<2, int, M, O>>; template <class M, class O = row2_type> using Cl = Col<int, DB<2, int, M, O>>;
PROP(matrix_subset, 250, 8000) { assigned<S2<BB>, S2<BB, col2_type>>(g); }
PROP(matrix_subset_from_cyclic, 250, 8000) { assigned<S2<BW, col2_type>, P2<CC>>(g); }
PROP(matrix_subset_to_replicated, 250, 8000) { assigned<P2<R>, S2<WB>>(g); }
PROP(row_to_vector, 250, 8000) { assigned<P1<MB>, Rw<BB>>(g); }
PROP(vector_to_row, 250, 8000) { assigned<Rw<BB>, P1<MB>>(g); }
PROP(column_to_vector, 250, 8000) { assigned<P1<MC>, Cl<BB>>(g); }
PROP(vector_to_column, 250, 8000) { assigned<Cl<BB, col2_type>, P1<MB>>(g); }
PROP(row_to_column, 250, 8000) { assigned<Cl<BB>, Rw<WB, col2_type>>(g); }
PROP(row_to_row, 250, 8000) { assigned<Rw<BB>, Rw<BB>>(g); }
PROP(vector_to_strided_column, 250, 8000) { assigned<Cl<BB>, P1<MB>>(g); }
PROP(vector_to_strided_row, 250, 8000) { assigned<Rw<BB, col2_type>, P1<MC>>(g); }
typedef Map<C, B, W> CB;
PROP(column_of_rows, 200, 6000) { assigned<P1<MB>, Cl<BW>>(g); }
PROP(row_of_rows, 200, 6000) { assigned<P1<MB>, Rw<BW>>(g); }
PROP(column_of_columns, 200, 6000) { assigned<P1<MC>, Cl<WB>>(g); }
PROP(row_of_mixed, 200, 6000) { assigned<P1<MB>, Rw<CB>>(g); }
PROP(column_of_mixed, 200, 6000) { assigned<P1<MB>, Cl<CB>>(g); }
PROP(into_column_of_rows, 200, 6000) { assigned<Cl<BW>, P1<MB>>(g); }
PROP(row_to_column_of_mixed, 200, 6000) { assigned<Cl<CB>, Rw<BW>>(g); }

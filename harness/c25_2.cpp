// expressions over subsets of vectors, rows, columns; element types
#include "c25_par.hpp"
typedef Map<B, B, W> BB; typedef Map<W, B, W> WB; typedef Map<C, C, W> CC; typedef Map<B, W, W> BW;
typedef complex<float> cf; typedef complex<double> cd;
template <class M, class T = int> using P1 = Plain<1, T, DB<1, T, M>>; template <class M, class T = int> using S1 = Part<1, T, DB<1, T, M>>; template <class M, class T = int, class O = row2_type> using Rw = Row<T, DB<2, T, M, O>>; template <class M, class T = int, class O = row2_type> using Cl = Col<T, DB<2, T, M, O>>;
typedef ops<op_neg, op_nest, op_addto, op_ma, op_ssub, op_fill, op_sinc, op_mul> few;
PROP(subset_operand, 150, 5000) { zipped<few, P1<MB>, S1<MB>, P1<MB>>(g); }
PROP(subset_destination, 150, 5000) { zipped<few, S1<MB>, P1<MB>, P1<MC>>(g); }
PROP(subset_all, 150, 5000) { zipped<few, S1<MB>, S1<MB>, S1<MB>>(g); }
PROP(rows_and_vectors, 150, 5000) { zipped<few, P1<MB>, Rw<BB>, P1<MB>>(g); }
PROP(to_rows, 150, 5000) { zipped<few, Rw<BB>, P1<MC>, Rw<WB>>(g); }
PROP(columns, 150, 5000) { zipped<few, Cl<BB>, Cl<CC>, Rw<BB>>(g); }
PROP(type_float, 100, 5000) { zipped<more, P1<MB, float>, P1<MC, float>, P1<MR, float>>(g); }
PROP(type_double, 100, 5000) { zipped<more, P1<MR, double>, P1<MC, double>, S1<MB, double>>(g); }
PROP(type_complex, 100, 5000) { zipped<cplx, P1<MB, cf>, P1<MC, cf>, P1<MB, cf>>(g); }
PROP(type_complex_double, 100, 5000) { zipped<cplx, S1<MB, cd>, P1<MR, cd>, P1<MB, cd>>(g); }
PROP(to_bool, 100, 5000) { zipped<ops<op_gt>, P1<MB, bool>, P1<MC>, P1<MB>>(g); }
PROP(to_real, 100, 5000) { zipped<ops<op_magsq, op_real>, P1<MB, float>, P1<MB, cf>, P1<MC, cf>>(g); }
PROP(mixed_real_complex, 100, 5000) { zipped<ops<op_times, op_plus>, P1<MB, cf>, P1<MC, cf>, P1<MB, float>>(g); }
PROP(mixed_real_double, 100, 5000) { zipped<ops<op_times, op_plus>, P1<MB, double>, P1<MC, float>, P1<MB, double>>(g); }
PROP(to_complex, 100, 5000) { zipped<ops<op_cmplx>, P1<MB, cf>, P1<MC, float>, P1<MB, float>>(g); }

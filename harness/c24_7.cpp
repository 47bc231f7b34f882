#include "c24_par.hpp"
// element types and storage formats, converting assignments, components, local views
typedef Map<B, W, W> MB; typedef Map<C, W, W> MC; typedef Replicated_map<1> R; typedef Map<B, B, W> BB; typedef Map<C, C, W> CC; typedef Map<W, B, W> WB;
typedef complex<float> cf; typedef complex<double> cd;
template <class T, class M> using P1 = Plain<1, T, DB<1, T, M>>; template <class T, class M, class O = row2_type> using P2 = Plain<2, T, DB<2, T, M, O>>;
template <int D, class T, class M, storage_format_type F, class O = typename rm<D>::type> using St = Plain<D, T, ovxx::Strided<D, T, Layout<D, O, dense, F>, M>>;
PROP(type_char, 120, 4000) { assigned<P1<char, MB>, P1<char, MC>>(g); }
PROP(type_short, 120, 4000) { assigned<P2<short, BB>, P2<short, CC>>(g); }
PROP(type_unsigned, 120, 4000) { assigned<P1<unsigned, MB>, P1<unsigned, MB>>(g); }
PROP(type_double, 120, 4000) { assigned<P2<double, WB>, P2<double, BB>>(g); }
PROP(type_bool, 120, 4000) { assigned<P1<bool, MB>, P1<bool, R>>(g); }
PROP(type_bool_part, 120, 4000) { assigned<Part<1, bool, DB<1, bool, Map<B>>>, P1<bool, MB>>(g); }
PROP(type_char_part, 120, 4000) { assigned<P1<signed char, MB>, Part<1, signed char, DB<1, signed char, Map<B>>>>(g); }
PROP(type_uchar_parts, 120, 4000) { assigned<Part<2, unsigned char, DB<2, unsigned char, Map<B, B>>>, Part<2, unsigned char, DB<2, unsigned char, Map<B, W>>>>(g); }
PROP(type_complex, 120, 4000) { assigned<P2<cf, BB>, P2<cf, CC, col2_type>>(g); }
PROP(type_complex_double, 120, 4000) { assigned<P1<cd, R>, P1<cd, MB>>(g); }
PROP(split_vector, 120, 4000) { assigned<St<1, cf, MB, split_complex>, St<1, cf, MB, split_complex>>(g); }
PROP(split_cyclic, 120, 4000) { assigned<St<1, cf, MC, split_complex>, St<1, cf, MB, split_complex>>(g); }
PROP(split_matrix, 120, 4000) { assigned<St<2, cf, BB, split_complex>, St<2, cf, CC, split_complex>>(g); }
PROP(interleaved_vector, 120, 4000) { assigned<St<1, cf, MB, interleaved_complex>, St<1, cf, MC, interleaved_complex>>(g); }
PROP(interleaved_matrix, 120, 4000) { assigned<St<2, cf, BB, interleaved_complex>, St<2, cf, CC, interleaved_complex>>(g); }
PROP(interleaved_block, 120, 4000) { assigned<St<1, cf, MB, interleaved_complex>, P1<cf, MB>>(g); }
PROP(convert_int_double, 120, 4000) { assigned<P1<double, MB>, P1<int, MB>, false>(g); }
PROP(convert_cyclic, 120, 4000) { assigned<P1<double, MC>, P1<float, MB>, false>(g); }
PROP(convert_short_int, 120, 4000) { assigned<P2<int, BB>, P2<short, CC>, false>(g); }
PROP(convert_real_complex, 120, 4000) { assigned<P2<cf, BB>, P2<float, WB>, false>(g); }
template <class T, class M> using S1 = Part<1, T, DB<1, T, M>>;
PROP(convert_to_subset, 120, 4000) { assigned<S1<double, MB>, P1<int, MC>, false>(g); }
PROP(convert_from_subset, 120, 4000) { assigned<P1<double, MB>, S1<float, MB>, false>(g); }
PROP(convert_to_replicated, 120, 4000) { assigned<P1<double, R>, P1<short, MC>, false>(g); }
PROP(convert_from_replicated, 120, 4000) { assigned<P1<float, MC>, P1<int, R>, false>(g); }
PROP(interleaved_array, 120, 4000) { assigned<St<2, cf, BB, interleaved_complex>, P2<cf, CC>>(g); }
PROP(interleaved_subset, 120, 4000) { assigned<Part<2, cf, ovxx::Strided<2, cf, Layout<2, row2_type, dense, interleaved_complex>, BB>>, P2<cf, CC>>(g); }
PROP(interleaved_to_array, 120, 4000) { assigned<P1<cf, MB>, St<1, cf, MB, interleaved_complex>>(g); }
PROP(split_subset, 120, 4000) { assigned<Part<1, cf, ovxx::Strided<1, cf, Layout<1, row1_type, dense, split_complex>, MB>>, St<1, cf, MC, split_complex>>(g); }

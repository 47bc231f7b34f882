#include "c24_par.hpp"
typedef Map<B, B, B> BBB; typedef Map<W, W, B> WWB; typedef Map<B, W, W> BW; typedef Map<B, B, W> BB; typedef Map<C, C, W> CC;
template <class M, class O = row2_type> using P2 = Plain<2, int, DB<2, int, M, O>>; template <int F, class M, class O = row3_type> using Sl = Slice<F, int, DB<3, int, M, O>>;
PROP(slice_first, 200, 6000) { assigned<P2<BB>, Sl<0, BBB, col3_type>>(g); }
PROP(slice_second, 200, 6000) { assigned<P2<CC>, Sl<1, BBB, tuple<0, 2, 1>>>(g); }
PROP(slice_third, 200, 6000) { assigned<P2<BB, col2_type>, Sl<2, BBB>>(g); }
PROP(into_slice_first, 200, 6000) { assigned<Sl<0, BBB, col3_type>, P2<BB>>(g); }
PROP(into_slice_third, 200, 6000) { assigned<Sl<2, BBB>, P2<BB>>(g); }
PROP(slice_to_slice, 200, 6000) { assigned<Sl<0, BBB, tuple<1, 2, 0>>, Sl<2, BBB, tuple<0, 1, 2>>>(g); }
typedef Map<B, W, B> BWB; typedef Map<W, B, B> WBB; typedef Map<W, B, W> WB; typedef Map<C, B, W> CB;
PROP(slice_first_whole, 200, 6000) { assigned<P2<BB>, Sl<0, WWB, col3_type>>(g); }
PROP(slice_second_whole, 200, 6000) { assigned<P2<BB>, Sl<1, BWB, tuple<0, 2, 1>>>(g); }
PROP(slice_third_mixed, 200, 6000) { assigned<P2<BB>, Sl<2, BWB>>(g); }
PROP(slice_first_strided, 200, 6000) { assigned<P2<BB>, Sl<0, BBB>>(g); }
PROP(slice_second_strided, 200, 6000) { assigned<P2<BB>, Sl<1, BBB>>(g); }
PROP(slice_first_strided_whole, 200, 6000) { assigned<P2<WB>, Sl<0, WBB>>(g); }
PROP(slice_third_whole, 200, 6000) { assigned<P2<BB>, Sl<2, WBB>>(g); }
PROP(into_slice_strided, 200, 6000) { assigned<Sl<0, BBB>, P2<WB>>(g); }
PROP(into_slice_mixed, 200, 6000) { assigned<Sl<2, CB>, Sl<1, WBB>>(g); }

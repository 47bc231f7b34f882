#include "c19_lay.hpp"
template <pack_type P, storage_format_type S = array> using R = Layout<2, row2_type, P, S>; template <pack_type P, storage_format_type S = array> using C = Layout<2, col2_type, P, S>; template <pack_type P, storage_format_type S = array> using V = Layout<1, row1_type, P, S>;
PROP(applied_1, 10000, 200000) { applied<V<dense>, V<unit_stride>, V<any_packing>, V<aligned_16>, V<aligned_512>>(g); }
PROP(applied_2, 40000, 600000) { applied<R<dense>, C<dense>, R<aligned_8>, C<aligned_8>, R<aligned_16>, C<aligned_16>, R<aligned_32>, C<aligned_32>, R<aligned_64>, C<aligned_64>, R<aligned_128>, C<aligned_128>, R<aligned_256>, C<aligned_256>, R<aligned_512>, C<aligned_512>, R<aligned_1024>, C<aligned_1024>>(g); }
PROP(applied_3, 40000, 600000) { applied<L3<0, 1, 2, dense>, L3<0, 2, 1, dense>, L3<1, 0, 2, dense>, L3<1, 2, 0, dense>, L3<2, 0, 1, dense>, L3<2, 1, 0, dense>, L3<0, 1, 2, aligned_8>, L3<2, 1, 0, aligned_8>, L3<1, 0, 2, aligned_16>, L3<0, 2, 1, aligned_32>, L3<2, 0, 1, aligned_16>, L3<1, 2, 0, aligned_64>, L3<0, 1, 2, aligned_128>, L3<2, 1, 0, aligned_256>, L3<0, 2, 1, aligned_512>, L3<1, 2, 0, aligned_1024>>(g); }
PROP(runtime_1, 5000, 100000) { runtime<1>(g); }
PROP(runtime_2, 30000, 600000) { runtime<2>(g); }
PROP(runtime_3, 30000, 600000) { runtime<3>(g); }
PROP(block_1, 15000, 200000) { if (g.flip()) blocks<float, V<dense>, V<unit_stride>, V<aligned_16>, V<aligned_64>>(g); else blocks<cf, V<dense>, V<dense, split_complex>, V<dense, interleaved_complex>, V<aligned_32, split_complex>>(g); }

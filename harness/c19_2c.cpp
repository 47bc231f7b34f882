#include "c19_lay.hpp"
template <pack_type P, storage_format_type S = array> using R = Layout<2, row2_type, P, S>; template <pack_type P, storage_format_type S = array> using C = Layout<2, col2_type, P, S>;
PROP(block_2c, 20000, 300000) { blocks<cf, R<dense>, C<dense>, R<aligned_16>, C<aligned_16>, R<dense, split_complex>, C<dense, split_complex>, R<aligned_16, split_complex>, C<aligned_32, split_complex>, R<dense, interleaved_complex>, C<dense, interleaved_complex>, R<aligned_32, interleaved_complex>, C<aligned_16, interleaved_complex>>(g); }
PROP(block_2z, 10000, 150000) { blocks<cd, R<dense, split_complex>, C<aligned_64>, C<aligned_64, split_complex>, R<aligned_32, interleaved_complex>>(g); }

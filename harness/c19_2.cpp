#include "c19_lay.hpp"
template <pack_type P, storage_format_type S = array> using R = Layout<2, row2_type, P, S>; template <pack_type P, storage_format_type S = array> using C = Layout<2, col2_type, P, S>;
PROP(block_2f, 20000, 300000) { blocks<float, R<dense>, C<dense>, R<aligned_8>, C<aligned_8>, R<aligned_16>, C<aligned_16>, R<aligned_32>, C<aligned_32>, R<aligned_128>, C<aligned_512>, R<aligned_512>>(g); }
PROP(block_2b, 10000, 150000) { blocks<signed char, R<dense>, C<dense>, R<aligned_8>, C<aligned_16>>(g); }
PROP(block_2d, 10000, 150000) { blocks<double, R<aligned_8>, C<aligned_32>, R<aligned_64>, C<aligned_64>, R<aligned_256>, C<aligned_1024>>(g); }

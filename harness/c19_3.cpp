#include "c19_lay.hpp"
PROP(block_3f, 20000, 300000) { blocks<float, L3<0, 1, 2, dense>, L3<0, 2, 1, dense>, L3<1, 0, 2, dense>, L3<1, 2, 0, dense>, L3<2, 0, 1, dense>, L3<2, 1, 0, dense>, L3<0, 1, 2, aligned_8>, L3<1, 2, 0, aligned_16>, L3<2, 1, 0, aligned_32>>(g); }
PROP(block_3c, 15000, 200000) { blocks<cf, L3<0, 1, 2, dense, split_complex>, L3<0, 2, 1, dense, interleaved_complex>, L3<1, 0, 2, dense>, L3<2, 0, 1, aligned_8, split_complex>, L3<1, 0, 2, aligned_16, interleaved_complex>, L3<0, 2, 1, aligned_8>>(g); }

// C26: views of tensors, and of blocks with other layouts
#define C26_PARTS 1
#include "c26_life.hpp"
using namespace c26; typedef complex<float> cf;
template <dimension_type D, class T, class O, storage_format_type F> using S = ovxx::Strided<D, T, Layout<D, O, dense, F>>;
typedef Tensor<float> TF; typedef Tensor<cf, Dense<3, cf, tuple<2, 0, 1>>> TC; typedef Vector<cf, S<1, cf, row1_type, split_complex>> VS; typedef Matrix<cf, S<2, cf, col2_type, split_complex>> MS; typedef Matrix<float, ovxx::Strided<2, float, Layout<2, row2_type, aligned_32, array>>> MA;
PROP(tensors, 1000, 30000) { static std::vector<Maker> const m = {&make<TF, 2>, &make<TC, 1>, &make_user<TF, 2>}; history(g, m); }
PROP(split, 1000, 30000) { static std::vector<Maker> const m = {&make<VS, 2>, &make<MS, 2>}; history(g, m); }
PROP(padded, 1000, 30000) { static std::vector<Maker> const m = {&make<MA, 2>}; history(g, m); }

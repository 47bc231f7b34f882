// C26: views of vectors and matrices
#define C26_PARTS 1
#include "c26_life.hpp"
using namespace c26; typedef complex<float> cf;
template <class T> using V = Vector<T>; template <class T> using M = Matrix<T>; template <class T> using MC = Matrix<T, Dense<2, T, col2_type>>;
PROP(vectors, 1000, 30000) { static std::vector<Maker> const m = {&make<V<float>, 2>, &make<V<cf>, 2>, &make_user<V<float>, 2>, &make_user<V<cf>, 2>}; history(g, m); }
PROP(matrices, 1000, 30000) { static std::vector<Maker> const m = {&make<M<float>, 2>, &make<MC<int>, 2>, &make_user<M<float>, 2>}; history(g, m); }

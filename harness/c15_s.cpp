#include "c15_dda.hpp"
// matrix and vector slices of tensors in every order: the slice's own layout says which dimension is the inner one
template <int I> struct order3;
template <> struct order3<0> { typedef tuple<0, 1, 2> type; }; template <> struct order3<1> { typedef tuple<0, 2, 1> type; }; template <> struct order3<2> { typedef tuple<1, 0, 2> type; };
template <> struct order3<3> { typedef tuple<1, 2, 0> type; }; template <> struct order3<4> { typedef tuple<2, 0, 1> type; }; template <> struct order3<5> { typedef tuple<2, 1, 0> type; };
template <class T, class Or, int fixed> struct ovxx_slice;
#define S(F, E0, E1, E2, A0, A1, A2) template <class T, class Or> struct ovxx_slice<T, Or, F> { template <class G> static void go(size_t const *n, size_t c, size_t i, G const &f) { (void)i; Tensor<T, Dense<3, T, Or>> r(E0, E1, E2); auto o = operand(r, r(A0, A1, A2), "matrix slice of a tensor with dimension " #F " fixed"); f(o); } };
S(0, c, n[0], n[1], i, whole_domain, whole_domain) S(1, n[0], c, n[1], whole_domain, i, whole_domain) S(2, n[0], n[1], c, whole_domain, whole_domain, i)
#undef S
template <class T, class Or, int free> struct ovxx_slice1;
#define S(F, E0, E1, E2, A0, A1, A2) template <class T, class Or> struct ovxx_slice1<T, Or, F> { template <class G> static void go(size_t n, size_t c, size_t i, size_t e, size_t k, G const &f) { Tensor<T, Dense<3, T, Or>> r(E0, E1, E2); auto o = operand(r, r(A0, A1, A2), "vector slice of a tensor along dimension " #F); f(o); } };
S(0, n, c, e, whole_domain, i, k) S(1, c, n, e, i, whole_domain, k) S(2, c, e, n, i, k, whole_domain)
#undef S
template <class T, int D, class O, int Q, class... L> void one(pbt::Gen &g, O &o, Arr<T> const &a, size_t const *n, Ls_<L...>)
{
  o.set(a); typedef typename O::view_type::block_type B; g.note() << o.kind << "; ";
  one_of<sizeof...(L)>(g, [&](auto I) { constexpr int s = (decltype(I)::value + Q) % 6; typedef typename lay<B, typename nth<decltype(I)::value, Ls_<L...>>::type>::type Lt; g.note() << "layout " << decltype(I)::value << ' ' << sync_name(s) << "; ";
    access<T, D, sync_<s>::value, Lt>(g, o, a, n); });
}
template <class T, int Q> void slice2(pbt::Gen &g)
{
  typedef typename order3<Q / 3>::type Or; constexpr int fixed = Q % 3; size_t n[3] = {g.pick<size_t>({1, 2, 3, 4, 5, 8}), g.pick<size_t>({1, 2, 3, 4, 5, 8}), 1}, c = 1 + g.draw(4), i = g.draw(c);
  g.note() << n[0] << 'x' << n[1] << " order " << Q / 3 << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], 1);
  typedef Ls_<void, Layout<2, ovxx::any_type, any_packing, array>, Layout<2, row2_type, unit_stride, array>, Layout<2, col2_type, unit_stride, array>, Layout<2, row2_type, dense, array>, Layout<2, col2_type, dense, array>> Lays;
  ovxx_slice<T, Or, fixed>::go(n, c, i, [&](auto &o) { one<T, 2, typename std::decay<decltype(o)>::type, Q>(g, o, a, n, Lays()); });
}
template <class T, int Q> void slice1(pbt::Gen &g)
{
  typedef typename order3<Q / 3>::type Or; constexpr int free = Q % 3; size_t n[3] = {g.pick<size_t>({1, 2, 3, 4, 5, 8, 17}), 1, 1}, c = 1 + g.draw(4), i = g.draw(c), e = 1 + g.draw(4), k = g.draw(e);
  g.note() << n[0] << " order " << Q / 3 << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], 1, 1);
  typedef Ls_<void, Layout<1, row1_type, unit_stride, array>, Layout<1, row1_type, dense, array>> Lays;
  ovxx_slice1<T, Or, free>::go(n[0], c, i, e, k, [&](auto &o) { one<T, 1, typename std::decay<decltype(o)>::type, Q>(g, o, a, n, Lays()); });
}
PROP(dda_slice2, 4000, 60000) { one_of<18>(g, [&](auto Q) { slice2<float, decltype(Q)::value>(g); }); }
PROP(dda_slice1, 3000, 40000) { one_of<18>(g, [&](auto Q) { slice1<float, decltype(Q)::value>(g); }); }
// every permutation of tensors in every order
constexpr int at3(int i, int a, int b, int c) { return i == 0 ? a : i == 1 ? b : c; }
constexpr int find3(int v, int a, int b, int c) { return a == v ? 0 : b == v ? 1 : 2; }
template <class T, int Q> void permuted3(pbt::Gen &g)
{
  typedef typename order3<Q / 6>::type Or; typedef typename order3<Q % 6>::type Pm; constexpr int p0 = Pm::impl_dim0, p1 = Pm::impl_dim1, p2 = Pm::impl_dim2;
  typedef tuple<find3(Or::impl_dim0, p0, p1, p2), find3(Or::impl_dim1, p0, p1, p2), find3(Or::impl_dim2, p0, p1, p2)> E; // the order of the permuted view's elements
  size_t n[3], m[3]; for (auto &x : n) x = g.pick<size_t>({1, 2, 3, 4, 5}); m[p0] = n[0]; m[p1] = n[1]; m[p2] = n[2];
  g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << " order " << Q / 6 << " permutation " << Q % 6 << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  Tensor<T, Dense<3, T, Or>> r(m[0], m[1], m[2]); auto o = operand(r, r.template transpose<p0, p1, p2>(), "permuted tensor"); typedef decltype(o) O;
  one<T, 3, O, Q>(g, o, a, n, Ls_<void, Layout<3, E, unit_stride, array>, Layout<3, row3_type, dense, array>>());
}
PROP(dda_permuted3, 4000, 60000) { one_of<36>(g, [&](auto Q) { permuted3<float, decltype(Q)::value>(g); }); }
// and the matrix orders: transposed rows, columns and parts
template <class T, int Q> void transposed2(pbt::Gen &g)
{
  typedef typename std::conditional<Q % 2, col2_type, row2_type>::type Or; size_t n[3] = {g.pick<size_t>({1, 2, 3, 4, 5, 8}), g.pick<size_t>({1, 2, 3, 4, 5, 8}), 1};
  g.note() << n[0] << 'x' << n[1] << " order " << Q % 2 << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], 1);
  typedef Ls_<void, Layout<2, ovxx::any_type, any_packing, array>, Layout<2, row2_type, unit_stride, array>, Layout<2, col2_type, unit_stride, array>> Lays;
  Matrix<T, Dense<2, T, Or>> r(n[1], n[0]); auto o = operand(r, r.transpose(), "transposed matrix"); one<T, 2, decltype(o), Q>(g, o, a, n, Lays());
}
PROP(dda_transposed2, 1000, 20000) { one_of<6>(g, [&](auto Q) { transposed2<float, decltype(Q)::value>(g); }); }
// a row, column or diagonal of one
template <class T, int Q> void line1(pbt::Gen &g)
{
  typedef typename std::conditional<Q % 2, col2_type, row2_type>::type Or; size_t n[3] = {g.pick<size_t>({1, 2, 3, 4, 5, 8, 17}), 1, 1}, c = 1 + g.draw(4), i = g.draw(c);
  g.note() << n[0] << " order " << Q % 2 << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], 1, 1);
  typedef Ls_<void, Layout<1, row1_type, unit_stride, array>, Layout<1, row1_type, dense, array>> Lays; typedef Matrix<T, Dense<2, T, Or>> M;
  switch (g.draw(5))
  {
    case 0: { M r(c, n[0]); auto o = operand(r, r.row(i), "row"); one<T, 1, decltype(o), Q>(g, o, a, n, Lays()); break; }
    case 1: { M r(n[0], c); auto o = operand(r, r.col(i), "column"); one<T, 1, decltype(o), Q>(g, o, a, n, Lays()); break; }
    case 2: { M r(c, n[0]); auto t = r.transpose(); auto o = operand(r, t.col(i), "column of the transpose"); one<T, 1, decltype(o), Q>(g, o, a, n, Lays()); break; }
    case 3: { M r(n[0], c); auto t = r.transpose(); auto o = operand(r, t.row(i), "row of the transpose"); one<T, 1, decltype(o), Q>(g, o, a, n, Lays()); break; }
    default: { M r(n[0] + c, n[0] + i); auto o = operand(r, r.diag(-(ptrdiff_t)g.draw(c - i + 1)), "diagonal"); n[0] = o.view.size(); if (n[0] != a.n[0]) a = data<T>(3, pbt::signed_int, n[0], 1, 1); one<T, 1, decltype(o), Q>(g, o, a, n, Lays()); break; }
  }
}
PROP(dda_line1, 2000, 30000) { one_of<6>(g, [&](auto Q) { line1<float, decltype(Q)::value>(g); }); }

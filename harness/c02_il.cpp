#include "c02_assign.hpp"
// blocks of interleaved complex storage, with one another and with array and split storage
typedef std::complex<float> cf;
template <int D, class O = typename ovxx::row_major<D>::type, pack_type P = dense, storage_format_type F = interleaved_complex> using IL = ovxx::Strided<D, cf, Layout<D, O, P, F>>;
template <class F> void il_vector(pbt::Gen &g, size_t n, F const &f)
{
  switch (g.draw(3))
  {
    case 0: { Vector<cf, IL<1>> r(n); auto o = operand(r, r, "interleaved vector"); f(o); break; }
    case 1: { Part p = part(g, n); g.note() << p; Vector<cf, IL<1>> r(p.extent); auto o = operand(r, r(p.dom), "interleaved subvector"); f(o); break; }
    default: { size_t c = 1 + g.draw(4), i = g.draw(c); Matrix<cf, IL<2>> r(n, c); auto o = operand(r, r.col(i), "interleaved column"); f(o); }
  }
}
template <class F> void il_matrix(pbt::Gen &g, size_t n, size_t m, F const &f)
{
  switch (g.draw(5))
  {
    case 0: { Matrix<cf, IL<2>> r(n, m); auto o = operand(r, r, "interleaved matrix"); f(o); break; }
    case 1: { Matrix<cf, IL<2, col2_type>> r(n, m); auto o = operand(r, r, "interleaved column-major matrix"); f(o); break; }
    case 2: { Part p = part(g, n), q = part(g, m); g.note() << p << q; Matrix<cf, IL<2>> r(p.extent, q.extent); auto o = operand(r, r(Domain<2>(p.dom, q.dom)), "interleaved submatrix"); f(o); break; }
    case 3: { Matrix<cf, IL<2>> r(m, n); auto o = operand(r, r.transpose(), "transposed interleaved matrix"); f(o); break; }
    default: { Matrix<cf, IL<2, row2_type, aligned_32>> r(n, m); auto o = operand(r, r, "aligned interleaved matrix"); f(o); }
  }
}
template <class F> void il_tensor(pbt::Gen &g, size_t a, size_t b, size_t c, F const &f)
{
  switch (g.draw(3))
  {
    case 0: { Tensor<cf, IL<3>> r(a, b, c); auto o = operand(r, r, "interleaved tensor"); f(o); break; }
    case 1: { Tensor<cf, IL<3, tuple<1, 2, 0>>> r(a, b, c); auto o = operand(r, r, "interleaved tensor in order 1,2,0"); f(o); break; }
    default: { Part p = part(g, a), q = part(g, b), s = part(g, c); g.note() << p << q << s; Tensor<cf, IL<3>> r(p.extent, q.extent, s.extent); auto o = operand(r, r(Domain<3>(p.dom, q.dom, s.dom)), "interleaved subtensor"); f(o); }
  }
}
PROP(interleaved_vectors, 6000, 100000) { size_t n = g.large(g.len(1, 60), 2100, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n); il_vector(g, n, [&](auto &d) { il_vector(g, n, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_vector_from, 6000, 100000) { size_t n = g.large(g.len(1, 60), 2100, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n); il_vector(g, n, [&](auto &d) { with_vector<cf, V_basic>(g, n, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_vector_to, 6000, 100000) { size_t n = g.large(g.len(1, 60), 2100, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n); with_vector<cf, V_basic>(g, n, [&](auto &d) { il_vector(g, n, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_matrices, 8000, 100000) { size_t n = g.len(1, 20), m = g.len(1, 20); g.large({&n, &m}, 300, 40, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n, m); il_matrix(g, n, m, [&](auto &d) { il_matrix(g, n, m, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_matrix_from, 8000, 100000) { size_t n = g.len(1, 20), m = g.len(1, 20); g.large({&n, &m}, 300, 40, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n, m); il_matrix(g, n, m, [&](auto &d) { with_matrix<cf, M_basic>(g, n, m, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_matrix_to, 8000, 100000) { size_t n = g.len(1, 20), m = g.len(1, 20); g.large({&n, &m}, 300, 40, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n, m); with_matrix<cf, M_basic>(g, n, m, [&](auto &d) { il_matrix(g, n, m, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_tensors, 5000, 100000) { size_t n = g.len(1, 7), m = g.len(1, 7), l = g.len(1, 7); g.large({&n, &m, &l}, 100, 14, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n, m, l); il_tensor(g, n, m, l, [&](auto &d) { il_tensor(g, n, m, l, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }
PROP(interleaved_tensor_from, 5000, 100000) { size_t n = g.len(1, 7), m = g.len(1, 7), l = g.len(1, 7); g.large({&n, &m, &l}, 100, 14, 300); auto a = data<cf>(g.dataseed(), pbt::small_int, n, m, l); il_tensor(g, n, m, l, [&](auto &d) { with_tensor<cf, T_012 + T_subset + T_other>(g, n, m, l, [&](auto &s) { run<cf, cf>(g, d, s, a, true); }); }); }

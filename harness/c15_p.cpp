#include "c15_dda.hpp"
#include <ovxx/dda/persistent.hpp>
// storage that is held on to: read at construction, synchronized on request only (and only as its policy has it), nothing written back at the end
template <class T, int D, dda::sync_policy S, class L, class O> void hold(pbt::Gen &g, O &o, Arr<T> const &a)
{
  typedef typename O::view_type::block_type B; typedef ovxx::dda::Persistent_data<B, L> Dt; typedef Log<T, D> M; M m; m.block = a; size_t need = dda::required_buffer_size<L>(o.view.block()); bool own = g.flip(), direct;
  {
    typename Dt::non_const_ptr_type np = typename Dt::non_const_ptr_type(); Buffer<T> buf(own ? need : 0); if (own && need) { buf.as(np); g.note() << "own buffer; "; }
    std::unique_ptr<Dt> dp(new Dt(o.view.block(), S, np)); Dt &d = *dp; direct = d.cost() == 0; g.label(direct ? "direct" : "copy"); g.note() << (direct ? "direct; " : "copy; ");
    auto p = d.ptr(); typedef decltype(p) P; REQUIRE(g, d.size() == a.v.size(), "size() is " << d.size()); REQUIRE(g, direct || Dt::ct_cost >= d.cost(), "the static cost is less");
    REQUIRE(g, start(d.non_const_ptr()) == start(p), "non_const_ptr() points elsewhere"); if (own && need) REQUIRE(g, (void const *)start(p) == (void const *)start(np), "the buffer given is not used");
    compare<T, D>(g, d, p, m.block, "access"); m.ptr = m.block; size_t N = a.v.size(); int writes = 0, outs = 0; if (g.failed) return;
    for (int n = 1 + g.draw(8); n--;)
    {
      int op = g.draw(4); size_t e = g.draw(N), i = e / (a.n[1] * a.n[2]), j = e / a.n[2] % a.n[1], k = e % a.n[2]; T v = pbt::make<T>::from(g.draw(50), 1, pbt::signed_int);
      if (op == 0) { raw<T, P>::put(p, off<Dt, T, D, P>(d, i, j, k), v); m.ptr.v[e] = v; if (direct) m.block.v[e] = v; ++writes; g.note() << "write; "; }
      else if (op == 1) { vput(o.view, i, j, k, v); m.block.v[e] = v; if (direct) m.ptr.v[e] = v; g.note() << "put; "; }
      else if (op == 2) { d.sync_out(); if (S & dda::out && !direct) m.block = m.ptr; if (writes) ++outs; g.note() << "sync out; "; }
      else { d.sync_in(); if (S & dda::in && !direct) m.ptr = m.block; g.note() << "sync in; "; }
      REQUIRE(g, start(d.ptr()) == start(p), "the pointer has changed"); compare<T, D>(g, d, p, m.ptr, "after an operation"); o.holds(g, m.block, "the block during the access"); if (g.failed) return;
    }
    if (outs) g.nontrivial();
  }
  o.holds(g, m.block, "the block after the access");
}
template <class T, int D, int Mask, class... L> void holds(pbt::Gen &g, Ls_<L...>)
{
  size_t n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = D == 1 ? g.large(1 + g.draw(30), 1100) : 1 + g.draw(D == 2 ? 8 : 5); if (D > 1) g.large({&n[0], &n[D - 1]}, 140, 24, 150); g.note() << n[0] << 'x' << n[1] << 'x' << n[2] << ' '; Arr<T> a = data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]);
  with_<D>::template go<T, Mask>(g, n, [&](auto &o) {
    o.set(a); typedef typename std::decay<decltype(o)>::type O; typedef typename O::view_type::block_type B; g.note() << o.kind << "; ";
    one_of<sizeof...(L)>(g, [&](auto I) { typedef typename lay<B, typename nth<decltype(I)::value, Ls_<L...>>::type>::type Lt; g.note() << "layout " << decltype(I)::value << ' ';
      one_of<3>(g, [&](auto J) { g.note() << sync_name(decltype(J)::value) << "; "; hold<T, D, sync_<decltype(J)::value>::value, Lt>(g, o, a); }); });
  });
}
PROP(persist_f1, 1500, 20000) { holds<float, 1, V_all>(g, Ls_<void, Layout<1, row1_type, dense, array>>()); }
PROP(persist_f2, 1500, 20000) { holds<float, 2, M_all>(g, Ls_<void, Layout<2, row2_type, dense, array>, Layout<2, col2_type, aligned_32, array>>()); }
PROP(persist_c2, 1500, 20000) { holds<cf, 2, M_row | M_col | M_subset | M_other | M_aligned>(g, Ls_<void, Layout<2, row2_type, dense, split_complex>>()); }
PROP(persist_f3, 1000, 20000) { holds<float, 3, T_all>(g, Ls_<void, Layout<3, row3_type, dense, array>>()); }
// the block outlives the view that made it
template <class T, class V, class L> void outlive(pbt::Gen &g, size_t n, V *v, T f)
{
  std::unique_ptr<V> own(v); std::vector<T> w(n); for (size_t i = 0; i < n; ++i) { w[i] = pbt::make<T>::from(g.draw(50), 1, pbt::signed_int); v->put(i, w[i]); }
  ovxx::dda::Persistent_data<typename V::block_type, L> d(v->block()); own.reset(); char *again = new char[n * sizeof(T)]; memset(again, 0x5a, n * sizeof(T)); auto p = d.ptr(); typedef decltype(p) P;
  for (size_t i = 0; i < n; ++i) REQUIRE(g, eq<T>(raw<T, P>::get(p, i * d.stride(0)), w[i]), "element " << i << " has changed after the view went");
  d.sync_in(); for (size_t i = 0; i < n; ++i) REQUIRE(g, eq<T>(raw<T, P>::get(p, i * d.stride(0)), w[i]), "element " << i << " has changed after sync_in");
  raw<T, P>::put(p, 0, f); d.sync_out(); REQUIRE(g, eq<T>(raw<T, P>::get(d.ptr(), 0), f), "the value written is gone"); delete[] again; if (n > 1) g.nontrivial();
}
PROP(persist_life, 600, 20000)
{
  size_t n = 1 + g.draw(200); typedef Layout<1, row1_type, dense, array> A; typedef Layout<1, row1_type, dense, split_complex> S; g.note() << n << " elements; ";
  int k = g.draw(4); g.note() << "kind " << k;
  if (k == 0) outlive<float, Vector<float>, A>(g, n, new Vector<float>(n), 3.f);
  else if (k == 1) outlive<cf, Vector<cf>, S>(g, n, new Vector<cf>(n), cf(3, 4));
  else if (k == 2) { Vector<double> w(2 * n + 1); outlive<double, Vector<double>::subview_type, A>(g, n, new Vector<double>::subview_type(w(Domain<1>(1, 2, n))), 3.); }
  else { auto *m = new Matrix<float>(n, 3); auto *c = new Matrix<float>::col_type(m->col(1)); delete m; outlive<float, Matrix<float>::col_type, A>(g, n, c, 5.f); }
}

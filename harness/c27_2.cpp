// C27: storage of blocks: owned, borrowed, resized
#include "c27_mem.hpp"
using namespace c27; typedef complex<float> cf;
namespace
{
template <class T, storage_format_type F> struct buf;     // memory of the user
template <class T> struct buf<T, array> { std::vector<T> v; buf(size_t n) : v(n + 1) {} T *ptr() { return v.data(); } T get(size_t i) { return v[i]; } };
template <class T> struct buf<complex<T>, interleaved_complex> { std::vector<T> v; buf(size_t n) : v(2 * n + 1) {} T *ptr() { return v.data(); } complex<T> get(size_t i) { return complex<T>(v[2 * i], v[2 * i + 1]); } };
template <class T> struct buf<complex<T>, split_complex> { std::vector<T> r, i_; buf(size_t n) : r(n + 1), i_(n + 1) {} std::pair<T *, T *> ptr() { return std::make_pair(r.data(), i_.data()); } complex<T> get(size_t i) { return complex<T>(r[i], i_[i]); } };
template <class T> T val(long a, T *) { return T(a); } template <class T> complex<T> val(long a, complex<T> *) { return complex<T>(a, -a); }
template <class T, storage_format_type F> void storage(pbt::Gen &g)
{
  typedef ovxx::host_storage<T, F> S; typedef buf<T, F> U; Default d; Watch a, b; ovxx::allocator::set_default(&b); size_t pieces = F == split_complex ? 2 : 1;
  {
    std::vector<std::unique_ptr<U>> users; std::unique_ptr<S> s; std::vector<T> model; U *user = 0; bool allocated = false; Watch *from = 0; size_t steps = g.range(2, 25);
    auto fill = [&] { for (size_t i = 0; i < model.size(); ++i) { model[i] = val<>(long(g.draw(50)), (T *)0); if (allocated) s->put(i, model[i]); } };
    auto mine = [&](size_t n) { users.emplace_back(new U(n)); return users.back().get(); };
    for (size_t t = 0; t < steps; ++t)
    {
      unsigned op = s ? g.draw(8) : g.draw(4); size_t n = g.range(1, 40); 
      switch (op)
      {
      case 0: s.reset(); from = &a; s.reset(new S(&a, n, true)); allocated = true; user = 0; model.assign(n, T()); fill(); break;
      case 1: s.reset(); from = &b; s.reset(new S(n, g.flip())); allocated = s->is_allocated(); user = 0; model.assign(n, T()); fill(); break;
      case 2: s.reset(); from = &a; user = mine(n); s.reset(new S(&a, n, user->ptr())); allocated = true; model.assign(n, T()); fill(); break;
      case 3: s.reset(); from = &b; user = mine(n); s.reset(new S(n, user->ptr())); allocated = true; model.assign(n, T()); fill(); break;
      case 4: { bool same = !user && allocated && n == model.size(); s->resize(n); if (!same) { allocated = s->is_allocated(); user = 0; model.resize(n); if (allocated) fill(); } g.label("resized"); break; }
      case 5: user = mine(n); s->resize(n, user->ptr()); allocated = true; model.assign(n, T()); fill(); g.label("resized to user memory"); break;
      case 6: if (!user) { s->allocate(); if (!allocated) { allocated = true; fill(); } } break;
      case 7: if (!user) { s->deallocate(); allocated = false; } break;
      }
      g.note() << op << ":" << n << " ";
      REQUIRE(g, s->size() == model.size(), "size " << s->size() << ", not " << model.size()); REQUIRE(g, s->is_allocated() == allocated, "allocated or not");
      if (allocated) for (size_t i = 0; i < model.size(); ++i) { REQUIRE(g, s->get(i) == model[i], "element " << i << " is " << s->get(i) << ", not " << model[i]); if (user) REQUIRE(g, user->get(i) == model[i], "the user's element " << i << " is " << user->get(i)); }
      REQUIRE(g, a.error.empty() && b.error.empty(), a.error << b.error); size_t owns = allocated && !user ? pieces : 0; REQUIRE(g, from->live.size() == owns, from->live.size() << " pieces of memory are held, not " << owns); REQUIRE(g, (from == &a ? b : a).live.empty(), "the other allocator is used");
    }
    if (steps > 4) g.nontrivial();
  }
  REQUIRE(g, a.live.empty() && b.live.empty(), "memory is never released"); REQUIRE(g, a.error.empty() && b.error.empty(), a.error << b.error);
}
// a block over user memory of any format, admitted, released and rebound
template <class B> void bound(pbt::Gen &g)
{
  typedef typename B::value_type T; typedef typename T::value_type R; Default d; Watch a; ovxx::allocator::set_default(&a); size_t steps = g.range(1, 12);
  {
    std::vector<std::unique_ptr<std::vector<T>>> w; std::vector<std::unique_ptr<std::vector<R>>> r; size_t n = g.range(1, 30); std::unique_ptr<B> b;
    auto cx = [&] { w.emplace_back(new std::vector<T>(n)); return w.back()->data(); }; auto re = [&](size_t k) { r.emplace_back(new std::vector<R>(k)); return r.back()->data(); };
    for (size_t t = 0; t < steps; ++t)
    {
      unsigned op = b ? g.draw(6) : g.draw(3); g.note() << op << " ";
      switch (op)
      {
      case 0: { B *x = b.release(); if (x) x->decrement_count(); b.reset(new B(Domain<1>(n), cx())); break; }
      case 1: { B *x = b.release(); if (x) x->decrement_count(); b.reset(new B(Domain<1>(n), re(2 * n))); break; }
      case 2: { B *x = b.release(); if (x) x->decrement_count(); b.reset(new B(Domain<1>(n), std::make_pair(re(n), re(n)))); break; }
      case 3: b->admit(g.flip()); for (size_t i = 0; i < n; ++i) b->put(i, T(i, t)); for (size_t i = 0; i < n; ++i) REQUIRE(g, b->get(i) == T(i, t), "element " << i); break;
      case 4: b->release(g.flip()); break;
      case 5: b->release(false); switch (b->user_storage()) { case array_format: b->rebind(cx()); break; case interleaved_format: b->rebind(re(2 * n)); break; case split_format: b->rebind(re(n), re(n)); break; default: break; } g.label("rebound"); break;
      }
      REQUIRE(g, a.error.empty(), a.error); REQUIRE(g, a.live.size() <= 2, a.live.size() << " pieces are live for one block");
    }
    if (b) { B *x = b.release(); x->decrement_count(); }
    if (steps > 3) g.nontrivial();
  }
  REQUIRE(g, a.live.empty(), "memory is never released"); REQUIRE(g, a.error.empty(), a.error);
}
}
PROP(storage_array, 1200, 20000) { storage<float, array>(g); }
PROP(storage_complex, 1200, 20000) { storage<cf, array>(g); }
PROP(storage_interleaved, 1200, 20000) { storage<cf, interleaved_complex>(g); }
PROP(storage_split, 1200, 20000) { storage<complex<double>, split_complex>(g); }
template <storage_format_type F> using SB = ovxx::Strided<1, cf, Layout<1, row1_type, dense, F>>;
PROP(bound_dense, 1200, 20000) { bound<Dense<1, cf>>(g); }
PROP(bound_interleaved, 1200, 20000) { bound<SB<interleaved_complex>>(g); }
PROP(bound_split, 1200, 20000) { bound<SB<split_complex>>(g); }

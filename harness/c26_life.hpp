// C26: histories of views over blocks whose memory is watched. Included by units that pick the root blocks.
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/allocator.hpp>
#include "pbt.hpp"
#include <map>
#include <memory>
using namespace vsip;

#ifndef C26_BEFORE
#define C26_BEFORE
#endif
namespace c26
{
// an allocator that knows what is live; released memory is overwritten, and the address sanitizer watches it
struct Watch : ovxx::allocator
{
  std::map<char *, size_t> live; std::vector<char *> fresh; std::string error; ovxx::allocator *before;
  Watch()
#ifdef PBT_NO_VSIP
    : before(0)
#else
    : before(ovxx::allocator::get_default())
#endif
  { ovxx::allocator::set_default(this); }
  ~Watch() { ovxx::allocator::set_default(before); for (auto &p : live) free(p.first); }
  void *allocate(size_t n) override { void *p; if (posix_memalign(&p, 64, n ? n : 1)) throw std::bad_alloc(); memset(p, 0x5a, n); live[(char *)p] = n; fresh.push_back((char *)p); return p; }
  void deallocate(void *p, size_t n) override
  {
    if (!p) return;
    auto i = live.find((char *)p);
    if (i == live.end()) { error = "memory released that is not live"; return; }
    if (i->second != n) error = "a block of " + std::to_string(i->second) + " bytes released as " + std::to_string(n);
    memset(p, 0xa5, i->second); live.erase(i); free(p);
  }
};

struct Root { std::vector<long> data; std::vector<char *> mem; int handles; bool user; std::unique_ptr<char[]> store; Root() : handles(0), user(false) {} };
typedef std::shared_ptr<Root> RootP;

template <class T> struct el { enum { w = 1 }; static T get(Root const &r, size_t p) { return T(r.data[p]); } static void put(Root &r, size_t p, T v) { r.data[p] = long(v); } static T make(long a) { return T(a); } };
template <class T> struct el<complex<T>> { enum { w = 2 }; static complex<T> get(Root const &r, size_t p) { return complex<T>(r.data[p], r.data[p + 1]); } static void put(Root &r, size_t p, complex<T> v) { r.data[p] = long(v.real()); r.data[p + 1] = long(v.imag()); } static complex<T> make(long a) { return complex<T>(a, -a - 1); } };

// a handle: some view, what each of its elements is in the root's data
struct Handle
{
  RootP root; std::vector<size_t> pos; size_t n[3]; std::string what;
  virtual ~Handle() {}
  virtual std::string wrong() = 0;                       // reads everything
  virtual bool write(size_t i, long v) { return false; }
  virtual void fill(long v) {}
  virtual Handle *copy(pbt::Gen &g) = 0;
  virtual Handle *sub(pbt::Gen &g) = 0;
  virtual bool assign(Handle *) { return false; }
};
template <class V> struct dims { enum { value = ovxx::dim_of_view<V::template dummy>::value }; };
template <class T, class B> T rd(const_Vector<T, B> v, size_t const *n, size_t i) { return v.get(i); }
template <class T, class B> T rd(const_Matrix<T, B> v, size_t const *n, size_t i) { return v.get(i / n[1], i % n[1]); }
template <class T, class B> T rd(const_Tensor<T, B> v, size_t const *n, size_t i) { return v.get(i / n[2] / n[1], i / n[2] % n[1], i % n[2]); }
template <class T, class B> bool wr(Vector<T, B> v, size_t const *n, size_t i, T x) { v.put(i, x); return true; }
template <class T, class B> bool wr(Matrix<T, B> v, size_t const *n, size_t i, T x) { v.put(i / n[1], i % n[1], x); return true; }
template <class T, class B> bool wr(Tensor<T, B> v, size_t const *n, size_t i, T x) { v.put(i / n[2] / n[1], i / n[2] % n[1], i % n[2], x); return true; }

template <class V, int Depth> struct H;
template <int Depth, class V> Handle *wrap(V const &v, Handle const &of, std::vector<size_t> const &pos, size_t a, size_t b, size_t c, std::string const &w)
{
  Handle *h = new H<V, Depth>(v); h->root = of.root; h->pos = pos; h->n[0] = a; h->n[1] = b; h->n[2] = c; h->what = of.what + w; return h;
}
struct Sub { size_t o, n; stride_type s; Sub(pbt::Gen &g, size_t m) { n = g.range(1, m); s = n > 1 ? (stride_type)g.range(1, (m - 1) / (n - 1)) : 1; o = g.draw(m - (n - 1) * s); if (n > 1 && g.flip(30, 100)) { o += (n - 1) * s; s = -s; } } operator Domain<1>() const { return Domain<1>(o, s, n); } size_t operator()(size_t i) const { return o + i * s; } };

// subviews by shape; Depth is how many more levels may follow
template <class V> struct kind;                           // shape, element type, and whether elements can be written
template <class T_, class B_> struct kind<Vector<T_, B_>> { enum { D = 1, rw = 1 }; typedef T_ T; typedef B_ B; typedef const_Vector<T_, B_> C; };
template <class T_, class B_> struct kind<const_Vector<T_, B_>> { enum { D = 1, rw = 0 }; typedef T_ T; typedef B_ B; typedef const_Vector<T_, B_> C; };
template <class T_, class B_> struct kind<Matrix<T_, B_>> { enum { D = 2, rw = 1 }; typedef T_ T; typedef B_ B; typedef const_Matrix<T_, B_> C; };
template <class T_, class B_> struct kind<const_Matrix<T_, B_>> { enum { D = 2, rw = 0 }; typedef T_ T; typedef B_ B; typedef const_Matrix<T_, B_> C; };
template <class T_, class B_> struct kind<Tensor<T_, B_>> { enum { D = 3, rw = 1 }; typedef T_ T; typedef B_ B; typedef const_Tensor<T_, B_> C; };
template <class T_, class B_> struct kind<const_Tensor<T_, B_>> { enum { D = 3, rw = 0 }; typedef T_ T; typedef B_ B; typedef const_Tensor<T_, B_> C; };

typedef std::vector<size_t> P;
template <int Dp, class V> Handle *part(pbt::Gen &g, V &v, Handle const &h, std::false_type) { return 0; }
// real and imaginary parts
template <int Dp, class V> Handle *comp(pbt::Gen &g, V &v, Handle const &h, std::false_type) { return 0; }
template <int Dp, class V> Handle *comp(pbt::Gen &g, V &v, Handle const &h, std::true_type)
{
  P p(h.pos); bool im = g.flip(); if (im) for (auto &x : p) ++x;
  return im ? wrap<Dp>(v.imag(), h, p, h.n[0], h.n[1], h.n[2], ".imag") : wrap<Dp>(v.real(), h, p, h.n[0], h.n[1], h.n[2], ".real");
}
template <class V> struct parts { enum { value = ovxx::is_complex<typename kind<V>::T>::value && C26_PARTS }; };
template <int Dp, class V> Handle *take(pbt::Gen &g, V &v, Handle const &h, std::integral_constant<int, 1>)
{
  if (parts<V>::value && g.flip(30, 100)) return comp<Dp>(g, v, h, std::integral_constant<bool, parts<V>::value>());
  Sub s(g, h.n[0]); P p(s.n); for (size_t i = 0; i < s.n; ++i) p[i] = h.pos[s(i)];
  return wrap<Dp>(v(Domain<1>(s)), h, p, s.n, 1, 1, "(dom)");
}
template <int Dp, class V> Handle *take(pbt::Gen &g, V &v, Handle const &h, std::integral_constant<int, 2>)
{
  size_t a = h.n[0], b = h.n[1]; P p;
  switch (g.draw(parts<V>::value ? 6 : 5))
  {
  case 0: { size_t r = g.draw(a); for (size_t j = 0; j < b; ++j) p.push_back(h.pos[r * b + j]); return wrap<Dp>(v.row(r), h, p, b, 1, 1, ".row"); }
  case 1: { size_t c = g.draw(b); for (size_t i = 0; i < a; ++i) p.push_back(h.pos[i * b + c]); return wrap<Dp>(v.col(c), h, p, a, 1, 1, ".col"); }
  case 2: { for (size_t j = 0; j < b; ++j) for (size_t i = 0; i < a; ++i) p.push_back(h.pos[i * b + j]); return wrap<Dp>(v.transpose(), h, p, b, a, 1, ".transpose"); }
#ifndef C26_NODIAG
  case 3: { for (size_t i = 0; i < std::min(a, b); ++i) p.push_back(h.pos[i * b + i]); return wrap<Dp>(v.diag(), h, p, p.size(), 1, 1, ".diag"); }
#endif
  case 4: { Sub s(g, a), t(g, b); for (size_t i = 0; i < s.n; ++i) for (size_t j = 0; j < t.n; ++j) p.push_back(h.pos[s(i) * b + t(j)]); return wrap<Dp>(v(Domain<2>(s, t)), h, p, s.n, t.n, 1, "(dom)"); }
  }
  return comp<Dp>(g, v, h, std::integral_constant<bool, parts<V>::value>());
}
template <int Dp, class V> Handle *take(pbt::Gen &g, V &v, Handle const &h, std::integral_constant<int, 3>)
{
  size_t a = h.n[0], b = h.n[1], c = h.n[2]; P p; auto at = [&](size_t i, size_t j, size_t k) { p.push_back(h.pos[(i * b + j) * c + k]); };
  whole_domain_type const w = whole_domain;
  switch (g.draw(parts<V>::value ? 6 : 5))
  {
  case 0: { Sub s(g, a), t(g, b), u(g, c); for (size_t i = 0; i < s.n; ++i) for (size_t j = 0; j < t.n; ++j) for (size_t k = 0; k < u.n; ++k) at(s(i), t(j), u(k)); return wrap<Dp>(v(Domain<3>(s, t, u)), h, p, s.n, t.n, u.n, "(dom)"); }
  case 1: { size_t i = g.draw(a); for (size_t j = 0; j < b; ++j) for (size_t k = 0; k < c; ++k) at(i, j, k); return wrap<Dp>(v(i, w, w), h, p, b, c, 1, "(i,*,*)"); }
  case 2: { size_t j = g.draw(b); for (size_t i = 0; i < a; ++i) for (size_t k = 0; k < c; ++k) at(i, j, k); return wrap<Dp>(v(w, j, w), h, p, a, c, 1, "(*,j,*)"); }
  case 3: { size_t j = g.draw(b), k = g.draw(c); for (size_t i = 0; i < a; ++i) at(i, j, k); return wrap<Dp>(v(w, j, k), h, p, a, 1, 1, "(*,j,k)"); }
  case 4: { for (size_t k = 0; k < c; ++k) for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) at(i, j, k); return wrap<Dp>(v.template transpose<2, 0, 1>(), h, p, c, a, b, ".transpose"); }
  }
  return comp<Dp>(g, v, h, std::integral_constant<bool, parts<V>::value>());
}
template <class V, int Depth> struct next { static Handle *sub(pbt::Gen &g, V &v, Handle const &h) { return take<Depth - 1>(g, v, h, std::integral_constant<int, kind<V>::D>()); } };
template <class V> struct next<V, 0> { static Handle *sub(pbt::Gen &g, V &v, Handle const &h) { return 0; } };

template <class V, int Depth, bool RW> struct Writes { static bool wr(V &, Handle &, size_t, long) { return false; } static void fill(V &, Handle &, long) {} static bool assign(V &, Handle &, Handle *) { return false; } };
template <class V, int Depth> struct Writes<V, Depth, true>
{
  typedef typename kind<V>::T T;
  static bool wr(V &v, Handle &h, size_t i, long x) { T t = el<T>::make(x); c26::wr(v, h.n, i, t); el<T>::put(*h.root, h.pos[i], t); return true; }
  static void fill(V &v, Handle &h, long x) { T t = el<T>::make(x); v = t; for (size_t p : h.pos) el<T>::put(*h.root, p, t); }
  static bool assign(V &v, Handle &h, Handle *o)          // elements of a view of the same type
  {
    auto *s = dynamic_cast<H<V, Depth> *>(o); if (!s || s->root == h.root) return false;
    for (int d = 0; d < 3; ++d) if (s->n[d] != h.n[d]) return false;
    v = s->v; for (size_t i = 0; i < h.pos.size(); ++i) el<T>::put(*h.root, h.pos[i], el<T>::get(*s->root, s->pos[i])); return true;
  }
};
template <class V, int Depth> struct H : Handle
{
  typedef typename kind<V>::T T; enum { rw = kind<V>::rw };
  V v;
  H(V const &w) : v(w) {}
  std::string wrong() override { for (size_t i = 0; i < pos.size(); ++i) { T x = rd(v, n, i), y = el<T>::get(*root, pos[i]); if (!(x == y)) { std::ostringstream s; s << what << " element " << i << " is " << x << ", not " << y; return s.str(); } } return std::string(); }
  bool write(size_t i, long x) override { return Writes<V, Depth, rw>::wr(v, *this, i, x); }
  void fill(long x) override { Writes<V, Depth, rw>::fill(v, *this, x); }
  bool assign(Handle *o) override { return Writes<V, Depth, rw>::assign(v, *this, o); }
  Handle *copy(pbt::Gen &g) override
  {
    switch (g.draw(4))
    {
    case 0: { typename kind<V>::C c(v); return wrap<Depth>(c, *this, pos, n[0], n[1], n[2], "'"); }     // as a const view
    case 1: { V c(v.block()); return wrap<Depth>(c, *this, pos, n[0], n[1], n[2], ""); }                 // another view of the block
    default: return wrap<Depth>(v, *this, pos, n[0], n[1], n[2], "");
    }
  }
  Handle *sub(pbt::Gen &g) override { return next<V, Depth>::sub(g, v, *this); }
};

typedef Handle *(*Maker)(pbt::Gen &, Watch &);
// a new root; the block made by the view, on the stack with views outliving nothing, or on the heap by hand
template <class V> struct shape; template <class T, class B> struct shape<Vector<T, B>> { enum { D = 1 }; }; template <class T, class B> struct shape<Matrix<T, B>> { enum { D = 2 }; }; template <class T, class B> struct shape<Tensor<T, B>> { enum { D = 3 }; };
template <class V> V *mk(size_t const *n, std::integral_constant<int, 1>) { return new V(n[0]); } template <class V> V *mk(size_t const *n, std::integral_constant<int, 2>) { return new V(n[0], n[1]); } template <class V> V *mk(size_t const *n, std::integral_constant<int, 3>) { return new V(n[0], n[1], n[2]); }
inline Domain<1> whole(size_t const *n, std::integral_constant<int, 1>) { return Domain<1>(n[0]); } inline Domain<2> whole(size_t const *n, std::integral_constant<int, 2>) { return Domain<2>(n[0], n[1]); } inline Domain<3> whole(size_t const *n, std::integral_constant<int, 3>) { return Domain<3>(n[0], n[1], n[2]); }
template <int Depth, class V> Handle *root(pbt::Gen &g, Watch &w, V *v, size_t const *n, char const *name)
{
  std::unique_ptr<V> hold(v); typedef typename kind<V>::T T; Handle *h = new H<V, Depth>(*v); h->root = std::make_shared<Root>(); size_t k = 1; for (int d = 0; d < 3; ++d) k *= h->n[d] = n[d];
  for (size_t i = 0; i < k; ++i) h->pos.push_back(i * el<T>::w); h->root->data.resize(k * el<T>::w); h->what = name; h->root->mem.clear(); for (char *p : w.fresh) if (w.live.count(p)) h->root->mem.push_back(p); return h;
}
template <class V, int Depth> Handle *make(pbt::Gen &g, Watch &w)
{
  typedef typename kind<V>::B B; typedef std::integral_constant<int, kind<V>::D> D; size_t n[3] = {1, 1, 1}; for (int d = 0; d < D::value; ++d) n[d] = g.range(1, D::value == 1 ? 20 : 5);
  w.fresh.clear(); V *v; char const *name = "view";
  if (g.flip(70, 100)) v = mk<V>(n, D());
  else { B *b = new B(whole(n, D())); v = new V(*b); b->decrement_count(); name = "block"; g.label("block made by hand"); }
  Handle *h = root<Depth>(g, w, v, n, name); h->fill(g.range(-9, 9)); return h;
}
// over memory of the user
template <class V, int Depth> Handle *make_user(pbt::Gen &g, Watch &w)
{
  typedef typename kind<V>::B B; typedef typename kind<V>::T T; typedef std::integral_constant<int, kind<V>::D> D; size_t n[3] = {1, 1, 1}, k = 1; for (int d = 0; d < D::value; ++d) k *= n[d] = g.range(1, D::value == 1 ? 20 : 5);
  w.fresh.clear(); std::unique_ptr<char[]> m(new char[k * sizeof(T)]); B *b = new B(whole(n, D()), reinterpret_cast<T *>(m.get())); b->admit(false); V *v = new V(*b); b->decrement_count(); g.label("user memory");
  Handle *h = root<Depth>(g, w, v, n, "user"); h->root->store = std::move(m); h->root->user = true; h->fill(g.range(-9, 9)); return h;
}

struct Pool
{
  pbt::Gen &g; Watch w; std::vector<std::unique_ptr<Handle>> slot; std::vector<Maker> const &makers; std::ostringstream trace;
  Pool(pbt::Gen &g, std::vector<Maker> const &m) : g(g), slot(6), makers(m) {}
  bool alive(Root &r) { for (char *p : r.mem) if (!w.live.count(p)) return false; return true; }
  void set(size_t i, Handle *h) { std::unique_ptr<Handle> k(h); ++h->root->handles; drop(i); slot[i] = std::move(k); }
  void drop(size_t i)
  {
    if (!slot[i]) return;
    RootP r = slot[i]->root; std::string what = slot[i]->what; if (r->handles > 1) { std::string e = slot[i]->wrong(); REQUIRE(g, e.empty(), "before it went: " << e); }
    slot[i].reset(); --r->handles;
    if (r->handles) REQUIRE(g, alive(*r), "the block went with " << what << ", " << r->handles << " views of it are left");
    else { for (char *p : r->mem) REQUIRE(g, !w.live.count(p), "the block outlives " << what << ", the last view of it"); r->store.reset(); if (r->data.size() > 1) g.label("last view dropped"); }
  }
  void check() { REQUIRE(g, w.error.empty(), w.error); for (auto &s : slot) if (s) { REQUIRE(g, alive(*s->root), "the block of " << s->what << " is gone"); std::string e = s->wrong(); REQUIRE(g, e.empty(), e); } }
  size_t full() { std::vector<size_t> f; for (size_t i = 0; i < slot.size(); ++i) if (slot[i]) f.push_back(i); return f.empty() ? slot.size() : f[g.draw(f.size())]; }
  void step()
  {
    size_t a = g.draw(slot.size()), b = full(); unsigned op = b == slot.size() ? 0 : g.pick({0, 0, 1, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, 6});
    switch (op)
    {
    case 0: { Handle *h = makers[g.draw(makers.size())](g, w); g.note() << a << "=" << h->what << "[" << h->pos.size() << "]; "; set(a, h); break; }
    case 1: { Handle *h = slot[b]->copy(g); g.note() << a << "=copy " << b << "; "; set(a, h); break; }
    case 2: { Handle *h = slot[b]->sub(g); if (h) { g.note() << a << "=" << h->what << " of " << b << "; "; g.label(h->what.substr(h->what.find_first_of(".(")).c_str()); if (a == b) g.label("replaced by its own part"); set(a, h); } break; }
    case 3: g.note() << "drop " << b << "; "; drop(b); break;
    case 4: { size_t i = g.draw(slot[b]->pos.size()); long v = g.range(-99, 99); if (slot[b]->write(i, v)) g.note() << b << "[" << i << "]=" << v << "; "; break; }
    case 5: slot[b]->fill(g.range(-99, 99)); break;
    case 6: for (auto &s : slot) if (s && slot[b]->assign(s.get())) { g.label("elements assigned"); break; } break;
    }
    check();
  }
  void run()
  {
    size_t n = g.range(4, 40); for (size_t i = 0; i < n; ++i) step();
    for (size_t i = 0; i < slot.size(); ++i) { drop(i); check(); }
    REQUIRE(g, w.live.empty(), w.live.size() << " pieces of memory are never released"); if (n > 8) g.nontrivial();
  }
};
inline void history(pbt::Gen &g, std::vector<Maker> const &m) { C26_BEFORE Pool p(g, m); p.run(); }
} // namespace c26

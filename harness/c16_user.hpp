// C16 user-storage blocks
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/dda.hpp>
#include <vsip/map.hpp>
#include <memory>
#include <cstring>
#include "views.hpp"
using namespace pv;
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <class T> struct scal { typedef T type; enum { cplx = 0 }; }; template <class S> struct scal<std::complex<S>> { typedef S type; enum { cplx = 1 }; };
template <class T> bool same(T a, T b) { return a == b; }
enum Form { ARRAY, INTER, SPLIT };
// user memory: a form, guards around, and what it should hold
template <class T> struct Mem
{
  typedef typename scal<T>::type S; enum { G = 3 };
  Form form; size_t n; S *a, *b; std::vector<T> want; size_t la, lb;
  Mem(Form f, size_t n_) : form(f), n(n_), want(n_)
  {
    la = (f == SPLIT || !scal<T>::cplx ? n : 2 * n) + 2 * G; lb = f == SPLIT ? n + 2 * G : 0;
    a = new S[la]; b = lb ? new S[lb] : 0;
    for (size_t i = 0; i < la; ++i) a[i] = S(-77); for (size_t i = 0; i < lb; ++i) b[i] = S(-77);
    for (size_t i = 0; i < n; ++i) set(i, T());
  }
  ~Mem() { delete[] a; delete[] b; }
  S *pa() { return a + G; } S *pb() { return b + G; } T *pt() { return (T *)(void *)pa(); }
  template <class U> static U make_(S r, S i, U *) { return U(r); } template <class U> static std::complex<U> make_(S r, S i, std::complex<U> *) { return std::complex<U>(r, i); }
  T get(size_t i) { if (!scal<T>::cplx) return make_(pa()[i], 0, (T *)0); return form == SPLIT ? make_(pa()[i], pb()[i], (T *)0) : make_(pa()[2 * i], pa()[2 * i + 1], (T *)0); }
  void set(size_t i, T v)
  {
    want[i] = v; if (!scal<T>::cplx) { pa()[i] = std::real(v); return; }
    if (form == SPLIT) pa()[i] = std::real(v), pb()[i] = std::imag(v); else pa()[2 * i] = std::real(v), pa()[2 * i + 1] = std::imag(v);
  }
  bool ok(pbt::Gen &g, char const *when, int which)
  {
    for (size_t i = 0; i < n; ++i) if (!same(get(i), want[i])) { std::ostringstream o; o << when << ": element " << i << " of user memory " << which << " is " << pbt::show(get(i)) << ", not " << pbt::show(want[i]); g.fail(o.str()); return false; }
    for (size_t i = 0; i < (size_t)G; ++i) if (a[i] != S(-77) || a[la - 1 - i] != S(-77) || (b && (b[i] != S(-77) || b[lb - 1 - i] != S(-77)))) { g.fail(std::string(when) + ": memory next to the user's was written"); return false; }
    return true;
  }
};
template <int D> struct Ix { size_t n[3]; dimension_type o[3]; size_t at(size_t i, size_t j, size_t k) const { size_t x[3] = {i, j, k}, r = 0; for (int d = 0; d < D; ++d) r = r * n[o[d]] + x[o[d]]; return r; } };
template <class B> void bput(B &b, size_t i, size_t j, size_t k, typename B::value_type v, std::integral_constant<int, 1>) { b.put(i, v); }
template <class B> void bput(B &b, size_t i, size_t j, size_t k, typename B::value_type v, std::integral_constant<int, 2>) { b.put(i, j, v); }
template <class B> void bput(B &b, size_t i, size_t j, size_t k, typename B::value_type v, std::integral_constant<int, 3>) { b.put(i, j, k, v); }
template <class B> typename B::value_type bget(B &b, size_t i, size_t j, size_t k, std::integral_constant<int, 1>) { return b.get(i); }
template <class B> typename B::value_type bget(B &b, size_t i, size_t j, size_t k, std::integral_constant<int, 2>) { return b.get(i, j); }
template <class B> typename B::value_type bget(B &b, size_t i, size_t j, size_t k, std::integral_constant<int, 3>) { return b.get(i, j, k); }
template <int D> Domain<D> dom_of(size_t const *n); template <> inline Domain<1> dom_of<1>(size_t const *n) { return Domain<1>(n[0]); } template <> inline Domain<2> dom_of<2>(size_t const *n) { return Domain<2>(n[0], n[1]); } template <> inline Domain<3> dom_of<3>(size_t const *n) { return Domain<3>(n[0], n[1], n[2]); }
template <int D, class T, class B> struct View_; template <class T, class B> struct View_<1, T, B> { typedef Vector<T, B> type; }; template <class T, class B> struct View_<2, T, B> { typedef Matrix<T, B> type; }; template <class T, class B> struct View_<3, T, B> { typedef Tensor<T, B> type; };
template <class V> void vcheck(V &v, size_t i, size_t j, size_t k, typename V::value_type x, std::integral_constant<int, 1>) { v.put(i, x); } template <class V> void vcheck(V &v, size_t i, size_t j, size_t k, typename V::value_type x, std::integral_constant<int, 2>) { v.put(i, j, x); } template <class V> void vcheck(V &v, size_t i, size_t j, size_t k, typename V::value_type x, std::integral_constant<int, 3>) { v.put(i, j, k, x); }
// the user's calls, by form; real blocks know only arrays
template <class B, class T, bool C = scal<T>::cplx> struct Calls
{
  template <class I> static B *make(Domain<B::dim> const &d, Mem<T> &m, I) { return new B(d, m.pt()); }
  static void rebind(B &b, Mem<T> &m, int) { b.rebind(m.pt()); }
  template <class Dm> static void rebind(B &b, Mem<T> &m, Dm const &d, int) { b.rebind(m.pt(), d); }
  static bool find(B &b, Mem<T> *m, int) { T *p = (T *)1; b.find(p); return p == (m ? m->pt() : 0); }
  static bool release(B &b, bool u, Mem<T> *m, int) { T *p = (T *)1; b.release(u, p); return p == (m ? m->pt() : 0); }
  static bool shared(B &b, Mem<T> &m) { return true; }
};
template <class B, class T> struct Calls<B, T, true>
{
  typedef typename scal<T>::type S; typedef std::pair<S *, S *> P;
  template <class I> static B *make(Domain<B::dim> const &d, Mem<T> &m, I pairs)
  { if (m.form == ARRAY) return new B(d, m.pt()); if (m.form == INTER) return new B(d, m.pa()); return pairs ? split(d, m, std::is_same<typename B::map_type, Local_map>()) : new B(d, m.pa(), m.pb()); }
  static B *split(Domain<B::dim> const &d, Mem<T> &m, std::true_type) { return new B(d, P(m.pa(), m.pb())); }
  static B *split(Domain<B::dim> const &d, Mem<T> &m, std::false_type) { return new B(d, m.pa(), m.pb()); }
  static void rebind(B &b, Mem<T> &m, int v) { if (m.form == ARRAY) b.rebind(m.pt()); else if (m.form == INTER) b.rebind(m.pa()); else b.rebind(m.pa(), m.pb()); }
  template <class Dm> static void rebind(B &b, Mem<T> &m, Dm const &d, int v) { if (m.form == ARRAY) b.rebind(m.pt(), d); else if (m.form == INTER) b.rebind(m.pa(), d); else if (v) b.rebind(P(m.pa(), m.pb()), d); else b.rebind(m.pa(), m.pb(), d); }
  static bool find(B &b, Mem<T> *m, int v)
  {
    Form f = m ? m->form : Form(v % 3); T *t = (T *)1; S *p = (S *)1, *q = (S *)1;
    if (f == ARRAY) { b.find(t); return t == (m ? m->pt() : 0); } if (f == INTER) { b.find(p); return p == (m ? m->pa() : 0); }
    b.find(p, q); return p == (m ? m->pa() : 0) && (!m || q == m->pb());
  }
  static bool release(B &b, bool u, Mem<T> *m, int v)
  {
    Form f = m ? m->form : Form(v % 3); T *t = (T *)1; S *p = (S *)1, *q = (S *)1;
    if (f == ARRAY) { b.release(u, t); return t == (m ? m->pt() : 0); } if (f == INTER) { b.release(u, p); return p == (m ? m->pa() : 0); }
    b.release(u, p, q); return p == (m ? m->pa() : 0) && (!m || q == m->pb());
  }
};
template <class B> storage_format_type fmt_of() { return get_block_layout<B>::storage_format; }
// shared: the block works on the user's memory itself
template <class B, class T> bool shares(Mem<T> const &m) { if (!scal<T>::cplx) return true; return (get_block_layout<B>::storage_format == split_complex) == (m.form == SPLIT); }
template <class B, class T, int D, bool Redom> void history(pbt::Gen &g)
{
  typedef typename get_block_layout<B>::order_type O; typedef Calls<B, T> C; std::integral_constant<int, D> Dim; typedef typename View_<D, T, B>::type V;
  Ix<D> ix; ix.n[0] = ix.n[1] = ix.n[2] = 1; ix.o[0] = O::impl_dim0; ix.o[1] = O::impl_dim1; ix.o[2] = O::impl_dim2;
  auto shape = [&](Ix<D> &x) { for (int d = 0; d < D; ++d) x.n[d] = D == 1 ? g.large(1 + g.draw(17), 600, 150) : 1 + g.draw(5); if (D > 1) g.large({&x.n[0], &x.n[D - 1]}, 70, 12, 150); }; shape(ix);
  size_t N = ix.n[0] * ix.n[1] * ix.n[2];
  std::vector<std::unique_ptr<Mem<T>>> mem; auto form = [&] { return scal<T>::cplx ? Form(g.draw(3)) : ARRAY; };
  auto fillmem = [&](Mem<T> &m) { uint64_t s = g.dataseed(); Arr<T> a = data<T>(s, pbt::signed_int, m.n, 1, 1); for (size_t i = 0; i < m.n; ++i) m.set(i, a.v[i]); };
  auto newmem = [&](size_t n) { mem.emplace_back(new Mem<T>(form(), n)); fillmem(*mem.back()); return (int)mem.size() - 1; };
  int cur = -1; bool adm; std::vector<T> val(N); std::unique_ptr<V> view;
  bool user = g.draw(6) != 0; B *b;
  if (user) { cur = newmem(N); b = C::make(dom_of<D>(ix.n), *mem[cur], g.flip()); adm = false; g.note() << "user storage " << mem[cur]->form; }
  else { T v = pbt::make<T>::from(g.draw(50), 1, pbt::signed_int); b = new B(dom_of<D>(ix.n), v); adm = true; val.assign(N, v); g.note() << "no user storage"; }
  view.reset(new V(*b)); b->decrement_count();
  g.note() << ' ' << ix.n[0] << 'x' << ix.n[1] << 'x' << ix.n[2] << ": "; int admits = 0, writes = 0, rebinds = 0;
  auto sync = [&] { if (adm && cur >= 0 && shares<B>(*mem[cur])) for (size_t i = 0; i < N; ++i) mem[cur]->want[i] = val[i]; };
  auto whole = [&](char const *when) {
    if (adm) for (size_t i = 0; i < ix.n[0]; ++i) for (size_t j = 0; j < ix.n[1]; ++j) for (size_t k = 0; k < ix.n[2]; ++k)
    { T v = bget(*b, i, j, k, Dim), w = val[ix.at(i, j, k)]; if (!same(v, w)) { std::ostringstream o; o << when << ": element (" << i << "," << j << "," << k << ") of the block is " << pbt::show(v) << ", not " << pbt::show(w); g.fail(o.str()); return; } }
    sync(); for (size_t m = 0; m < mem.size(); ++m) if (!mem[m]->ok(g, when, m)) return;
  };
  whole("at construction");
  for (int n = 2 + g.draw(14); n--;)
  {
    Mem<T> *m = cur < 0 ? 0 : mem[cur].get(); int v = g.draw(6); size_t e = g.draw(N), k = e % ix.n[2], j = e / ix.n[2] % ix.n[1], i = e / (ix.n[2] * ix.n[1]); T x = pbt::make<T>::from(g.draw(60), 1, pbt::signed_int); char const *what = "";
    switch (g.draw(10))
    {
      case 0: case 1: // admit
      {
        bool u = g.flip(3, 4); what = u ? "admit(true)" : "admit(false)"; if (!adm && cur < 0) continue; // nothing to admit
        b->admit(u);
        if (!adm) { adm = true; ++admits; if (u || shares<B>(*m)) val = m->want; else { what = "admit(false), fill"; *view = x; val.assign(N, x); } }
        break;
      }
      case 2: case 3: // release
      {
        bool u = g.flip(3, 4); what = u ? "release(true)" : "release(false)";
        if (v & 1) { what = u ? "release(true,p)" : "release(false,p)"; REQUIRE(g, C::release(*b, u, m, v / 2), what << " gives another pointer"); } else b->release(u);
        if (adm && m) { if (u || shares<B>(*m)) m->want = val; } adm = false;
        break;
      }
      case 4: case 5: case 6: // elements
        if (!adm) continue; ++writes;
        if (v == 0 && Redom) { what = "put(linear)"; b->put(e, x); val[e] = x; }
        else if (v <= 1) { what = "put"; bput(*b, i, j, k, x, Dim); val[ix.at(i, j, k)] = x; }
        else if (v == 2) { what = "view put"; vcheck(*view, i, j, k, x, Dim); val[ix.at(i, j, k)] = x; }
        else if (v == 3) { what = "view ="; *view = x; val.assign(N, x); }
        else if (v == 4) { what = "view +="; *view += x; for (auto &y : val) y += x; }
        else if (Redom) { what = "get(linear)"; T y = b->get(e); REQUIRE(g, same(y, val[e]), "get(" << e << ") is " << pbt::show(y) << ", not " << pbt::show(val[e])); }
        break;
      case 7: // the user writes to memory not in use, or not admitted
      {
        if (mem.empty()) continue; int w = g.draw(mem.size()); if (adm && w == cur) continue; what = "user writes"; if (v & 1) fillmem(*mem[w]); else mem[w]->set(e % mem[w]->n, x); break;
      }
      case 8: what = "find"; REQUIRE(g, C::find(*b, m, v), "find gives another pointer"); break;
      default: // rebind
      {
        if (adm) continue; ++rebinds; Ix<D> y = ix; bool re = Redom && v < 3; if (re) { shape(y); what = "rebind, resize"; } else what = "rebind";
        size_t M = y.n[0] * y.n[1] * y.n[2]; int w = -1; if (v & 1) for (size_t q = 0; q < mem.size(); ++q) if (mem[q]->n == M && (int)q != cur) w = q; if (w < 0) w = newmem(M);
        if (re) redom(*b, *mem[w], y, v); else C::rebind(*b, *mem[w], v);
        cur = w; if (re) { ix = y; N = M; val.assign(N, T()); view.reset(new V(*b)); REQUIRE(g, b->size() == N, "size() is " << b->size() << " after rebind to " << N); }
        g.label("rebind");
      }
    }
    g.note() << what << "; "; m = cur < 0 ? 0 : mem[cur].get();
    REQUIRE(g, b->admitted() == adm, "admitted() is " << b->admitted() << " after " << what);
    user_storage_type us = b->user_storage(), want = !m ? no_user_format : m->form == ARRAY ? array_format : m->form == INTER ? interleaved_format : split_format;
    REQUIRE(g, us == want, "user_storage() is " << us << ", not " << want);
    for (int d = 0; d < D; ++d) REQUIRE(g, b->size(D, d) == ix.n[d], "size(" << d << ") is " << b->size(D, d));
    whole(what); if (g.failed) return;
  }
  view.reset(); // the block goes: user memory stays as it is
  for (size_t m = 0; m < mem.size(); ++m) if (!mem[m]->ok(g, "after the block's end", m)) return;
  if (admits && writes && (admits > 1 || rebinds)) g.nontrivial(); g.label(user ? "user" : "allocated");
}
template <class B, class T, int D> void redom_(B &b, Mem<T> &m, Ix<D> const &y, int v, std::true_type) { Calls<B, T>::rebind(b, m, dom_of<D>(y.n), v); }
template <class B, class T, int D> void redom_(B &b, Mem<T> &m, Ix<D> const &y, int v, std::false_type) { Calls<B, T>::rebind(b, m, v); }
template <class B, class T, int D> void redom(B &b, Mem<T> &m, Ix<D> const &y, int v) { redom_(b, m, y, v, std::is_same<typename B::map_type, Local_map>()); }
template <int D, class T, class O, class M = Local_map> using Den = Dense<D, T, O, M>;
template <int D, class T, class O, storage_format_type F> using Str = ovxx::Strided<D, T, Layout<D, O, dense, F>>;

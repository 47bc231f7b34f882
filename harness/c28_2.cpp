// C28 messages: buffered and plain sends, receives, chains
#include "c28_comm.hpp"
#include <cstring>
struct Msg { int src, dst, type, len, mode; unsigned long seed; };
struct Pending { std::vector<std::shared_ptr<void>> keep; std::list<Comm::request_type> reqs; };
static bool is_complex(int t) { return t == 12 || t == 13; }
struct Sender { Comm &c; Msg const &m; Pending &p;
  template <class T> void go()
  {
    std::shared_ptr<T> a(new T[m.len + 1], std::default_delete<T[]>()); for (int i = 0; i < m.len; ++i) a.get()[i] = datum<T>::of(m.seed + i);
    if (m.mode == 0) { p.keep.push_back(a); p.reqs.emplace_back(); c.send(m.dst, a.get(), m.len, p.reqs.back()); }
    else if (m.mode == 1) { c.buf_send(m.dst, a.get(), m.len); for (int i = 0; i < m.len; ++i) a.get()[i] = datum<T>::of(m.seed + i + 999); }
    else { std::integral_constant<bool, !(std::is_same<T, Index<1>>::value || std::is_same<T, Index<2>>::value || std::is_same<T, Index<3>>::value)> t; view(a.get(), t); } }
  template <class T> void view(T *, std::false_type) { std::vector<T> a; for (int i = 0; i < m.len; ++i) a.push_back(datum<T>::of(m.seed + i)); c.buf_send(m.dst, a.data(), m.len); }
  template <class T> void view(T *a, std::true_type)
  {
    if (m.mode == 2) { length_type n = m.len; if (!n) { c.buf_send(m.dst, a, 0); return; } int st = 1 + m.seed % 3; Vector<T> v(n * st); Domain<1> d(m.seed % 2 ? st - 1 : 0, st, n); for (length_type i = 0; i < n * st; ++i) v.put(i, T()); for (length_type i = 0; i < n; ++i) v.put(d.first() + i * st, a[i]); par::buf_send(c, m.dst, const_Vector<T, typename Vector<T>::subview_type::block_type>(v(d))); }
    else { length_type n = m.len; if (!n) { c.buf_send(m.dst, a, 0); return; } length_type r = 1; for (length_type k = 1; k <= 7; ++k) if (n % k == 0 && m.seed % 5 != 0) r = k; if (m.seed % 2) { Matrix<T, Dense<2, T, col2_type>> v(r, n / r); for (length_type i = 0; i < n; ++i) v.put(i / (n / r), i % (n / r), a[i]); par::buf_send(c, m.dst, const_Matrix<T, Dense<2, T, col2_type>>(v)); } else { Matrix<T> v(r, n / r); for (length_type i = 0; i < n; ++i) v.put(i / (n / r), i % (n / r), a[i]); par::buf_send(c, m.dst, const_Matrix<T>(v)); } }
  } };
struct Receiver { pbt::Gen &g; Comm &c; Msg const &m;
  template <class T> void go()
  {
    T *b = new T[m.len]; T none = datum<T>::of(m.seed - 5); for (int i = 0; i < m.len; ++i) b[i] = none; bool view = m.mode > 1 && m.len && m.seed % 3 == 0; std::integral_constant<bool, !(std::is_same<T, Index<1>>::value || std::is_same<T, Index<2>>::value || std::is_same<T, Index<3>>::value)> t; if (view) into(b, t); else c.recv(m.src, b, m.len);
    for (int i = 0; i < m.len; ++i) { bool ok = b[i] == datum<T>::of(m.seed + i); REQUIRE(g, ok, "message of " << m.len << " " << type_name(m.type) << " from " << m.src << " to " << m.dst << " (mode " << m.mode << "): element " << i << " is wrong"); if (!ok) break; } delete[] b; }
  template <class T> void into(T *b, std::false_type) { c.recv(m.src, b, m.len); }
  template <class T> void into(T *b, std::true_type) { length_type n = m.len; if (m.seed % 2) { Vector<T> v(n); par::recv(c, m.src, v); for (length_type i = 0; i < n; ++i) b[i] = v.get(i); } else { length_type r = n % 2 ? 1 : 2; Matrix<T, Dense<2, T, col2_type>> v(r, n / r); par::recv(c, m.src, v); for (length_type i = 0; i < n; ++i) b[i] = v.get(i / (n / r), i % (n / r)); } } };
// a set of messages between the members of a communicator; each pair's messages arrive in the order they were sent
PROP(messages, 200, 8000)
{
  g.soft = true; int w = world_size(); int colors = w > 2 ? 1 + g.draw(2) : 1; Comm c = par::default_communicator(); std::vector<int> colour(w); for (int i = 0; i < w; ++i) colour[i] = colors > 1 ? g.draw(2) : 0; bool rev = g.flip(); if (colors > 1 || rev) c = c.split(colour[world_rank()], rev ? w - world_rank() : world_rank()); int n = c.size(), me = c.rank();
  int rounds = 1 + g.draw(2); bool interesting = false; for (int round = 0; round < rounds; ++round)
  {
    std::vector<Msg> all; int count = g.draw(4 * w) + 1; long buffered = 0; for (int i = 0; i < count; ++i) { Msg m; m.src = g.draw(w); m.dst = g.draw(w); m.type = g.draw(ntypes); m.len = g.flip(1, 6) ? 0 : (int)g.len(1, 700); m.mode = g.draw(4); m.seed = 1000 + g.dataseed(); if (m.mode) { buffered += m.len * 32 + 200; if (buffered > 200000) m.mode = 0; } m.src %= n; m.dst %= n; all.push_back(m); }
    g.note() << count << " messages among " << n << ": "; for (Msg &m : all) g.note() << m.src << "->" << m.dst << ' ' << m.len << ' ' << type_name(m.type) << '/' << m.mode << ", ";
    int turn = g.draw(4); Pending p; std::vector<int> mine; for (size_t i = 0; i < all.size(); ++i) { if (all[i].src == me) { Sender s{c, all[i], p}; with_type(all[i].type, s); } if (all[i].dst == me) mine.push_back(i); if (all[i].src != all[i].dst && all[i].len) interesting = true; }
    // messages of one source in order, the sources interleaved in another order
    std::stable_sort(mine.begin(), mine.end(), [&](int a, int b) { int x = all[a].src, y = all[b].src; return turn == 0 ? false : turn == 1 ? x < y : turn == 2 ? x > y : (x * 5 + 2) % 7 < (y * 5 + 2) % 7; }); for (int i : mine) { Receiver r{g, c, all[i]}; with_type(all[i].type, r); }
    for (Comm::request_type &q : p.reqs) c.wait(q); c.barrier();
  }
  if (interesting) g.nontrivial(); g.label(n == w ? "whole world" : "part of the world");
}
// one element stream gathered from strided pieces at one end and scattered to other pieces at the other
struct Piece { long off; int s0; unsigned n0; int s1; unsigned n1; bool two; };
static std::vector<Piece> pieces(pbt::Gen &g, unsigned total, size_t &extent)
{
  std::vector<Piece> p; long at = g.draw(4); while (total) { Piece x; unsigned take = 1 + g.draw(total); x.two = g.flip(); x.n0 = 1; x.n1 = 1; x.s0 = x.s1 = 1; if (x.two) { for (unsigned k = 2; k <= 6; ++k) if (take % k == 0 && g.flip()) x.n0 = k; x.n1 = take / x.n0; bool inner = g.flip(); if (inner) { x.s1 = 1 + g.draw(3); x.s0 = x.s1 * x.n1 + g.draw(3); at += (long)x.s0 * x.n0; } else { x.s0 = 1 + g.draw(2); x.s1 = x.s0 * x.n0 + g.draw(3); at += (long)x.s1 * x.n1; } x.off = at - (inner ? (long)x.s0 * x.n0 : (long)x.s1 * x.n1); }
    else { x.n1 = take; x.s1 = 1 + g.draw(4); x.off = at; if (g.flip(1, 3) && take > 1) { x.off = at + (long)(take - 1) * x.s1; x.s1 = -x.s1; at = x.off + 1; } else at += (long)x.s1 * take; } p.push_back(x); total -= take; at += g.draw(3); } extent = at + 8;
  for (Piece &x : p) g.note() << x.off << ':' << x.s0 << 'x' << x.n0 << ':' << x.s1 << 'x' << x.n1 << ' '; return p;
}
template <class F> static void walk(std::vector<Piece> const &p, F f) { size_t k = 0; for (Piece const &x : p) for (unsigned i = 0; i < x.n0; ++i) for (unsigned j = 0; j < x.n1; ++j) f(k++, x.off + (long)i * x.s0 + (long)j * x.s1); }
template <class T> static void chain(std::vector<Piece> const &p, T *base, MPI_Datatype &t, int how)
{
  par::Chain_builder b; for (Piece const &x : p) { std::ptrdiff_t off = (how ? 0 : (std::ptrdiff_t)base) + x.off * (long)sizeof(T); if (x.two) b.add<T>(off, x.s0, x.n0, x.s1, x.n1); else b.add<T>(off, x.s1, x.n1); } if (!how) { t = b.get_chain(); return; }
  // pieces relative to a base, stitched to the address
  MPI_Datatype rel = b.get_chain(); par::Chain_builder s; s.stitch(base, rel); t = s.get_chain(); par::free_chain(rel);
}
struct Chained { pbt::Gen &g; Comm &c; int src, dst; unsigned total; unsigned long seed; std::vector<Piece> const &from, &to; size_t nf, nt; int hows, howr, times;
  template <class T> void go()
  {
    int me = c.rank(); std::unique_ptr<T[]> a(new T[nf]), b(new T[nt]); Comm::request_type q; MPI_Datatype cs, cr; for (size_t i = 0; i < nf; ++i) a[i] = datum<T>::of(77 + i); T none = datum<T>::of(5); for (size_t i = 0; i < nt; ++i) b[i] = none; if (me == src) chain(from, a.get(), cs, hows); if (me == dst) chain(to, b.get(), cr, howr);
    for (int k = 0; k < times; ++k)
    {
      unsigned long z = seed + 50000 * k; if (me == src) { walk(from, [&](size_t e, size_t at) { a[at] = datum<T>::of(z + e); }); c.send(dst, cs, q); } if (me == dst) c.recv(src, cr); if (me == src) c.wait(q);
      if (me == dst) { std::vector<char> hit(nt); bool ok = true; walk(to, [&](size_t e, size_t at) { hit[at] = 1; bool f = b[at] == datum<T>::of(z + e); REQUIRE(g, f || !ok, "chain of " << total << " " << typeid(T).name() << " from " << src << ": element " << e << " (at " << at << ") is wrong"); ok = ok && f; }); for (size_t i = 0; i < nt; ++i) { bool f = hit[i] || b[i] == none; REQUIRE(g, f, "the chain wrote outside its pieces, at " << i); if (!f) break; } }
    }
    if (me == src) par::free_chain(cs); if (me == dst) par::free_chain(cr); } };
PROP(chains, 250, 10000)
{
  g.soft = true; Comm c = par::default_communicator(); int n = c.size(); unsigned total = g.len(1, 300); size_t nf, nt; int src = g.draw(n), dst = g.draw(n), type = g.draw(ntypes); g.note() << total << " " << type_name(type) << " " << src << "->" << dst << " from "; std::vector<Piece> from = pieces(g, total, nf); g.note() << "to "; std::vector<Piece> to = pieces(g, total, nt); int hs = g.draw(2), hr = g.draw(2), times = 1 + g.draw(2); Chained x{g, c, src, dst, total, g.dataseed(), from, to, nf, nt, hs, hr, times}; with_type(type, x); c.barrier(); if (total > 1) g.nontrivial(); if (src == dst) g.label("to itself");
}

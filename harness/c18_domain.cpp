// C18: Domain and Index behave as the (finite) sets of indexes they denote.
#include <vsip/domain.hpp>
#include <ovxx/domain_utils.hpp>
#include "pbt.hpp"
#include <set>
#include <algorithm>
using namespace vsip;
typedef long long ll;

// The model of a 1-D domain: its sequence of indexes.
struct M1 { ll first, stride, len; std::vector<ll> seq() const { std::vector<ll> v; for (ll i = 0; i < len; ++i) v.push_back(first + stride * i); return v; } };
static M1 gen1(pbt::Gen &g, ll lo_len = 1)
{
  M1 m; m.len = g.len(lo_len, 40);
  m.stride = g.flip(3, 4) ? g.range(-6, 6) : g.pick<ll>({1, -1, 2, 7, 16, -16, 100, -100});
  if (m.stride == 0 && g.flip(3, 4)) m.stride = 1;
  ll need = m.stride < 0 ? -m.stride * (m.len - 1) : 0;
  if (need < 0) need = 0;
  m.first = need + (g.flip(1, 3) ? 0 : g.range(0, 30));
  return m;
}
static std::ostream &operator<<(std::ostream &o, M1 const &m) { return o << "[" << m.first << "," << m.stride << "," << m.len << "]"; }
static Domain<1> real(M1 const &m) { return Domain<1>(m.first, m.stride, m.len); }
static std::vector<ll> seq(Domain<1> const &d)
{
  std::vector<ll> v;
  for (index_type i = 0; i < d.length(); ++i) v.push_back((ll)(d.first() + d.stride() * (stride_type)i));
  return v;
}
static void same(pbt::Gen &g, Domain<1> const &d, M1 const &m, char const *what)
{
  REQUIRE(g, d.length() == (length_type)m.len && d.size() == (length_type)m.len, what << " length " << d.length() << " not " << m.len);
  REQUIRE(g, (ll)d.first() == m.first && (ll)d.stride() == m.stride, what << " is [" << d.first() << "," << d.stride() << "] not " << m);
  REQUIRE(g, seq(d) == m.seq(), what << " elements");
  if (m.len) REQUIRE(g, (ll)d.impl_last() == m.seq().back(), what << " last " << d.impl_last());
  for (ll i = 0; i < m.len; ++i) REQUIRE(g, (ll)d.impl_nth(i) == m.first + i * m.stride, what << " nth " << i);
}

PROP(domain_1d, 40000, 800000)
{
  M1 m = gen1(g);
  g.note() << "domain " << m;
  Domain<1> d = real(m);
  same(g, d, m, "constructed");
  Domain<1> c(d), a; a = d;
  same(g, c, m, "copied"); same(g, a, m, "assigned");
  if (m.first == 0 && m.stride == 1) same(g, Domain<1>(m.len), m, "Domain(len)");
  // arithmetic, a history of operations
  unsigned steps = g.range(1, 5);
  Domain<1> x = d; M1 y = m;
  for (unsigned i = 0; i < steps; ++i)
  {
    ll minimum = std::min(y.first, y.first + y.stride * (y.len - 1));
    switch (g.draw(4))
    {
      case 0: { ll s = g.range(0, 20); bool left = g.flip(); x = left ? Domain<1>((index_difference_type)s + x) : Domain<1>(x + (index_difference_type)s); y.first += s; g.note() << " +" << s; break; }
      case 1: { ll s = g.range(0, minimum); x = x - (index_difference_type)s; y.first -= s; g.note() << " -" << s; break; }
      case 2:
      {
        ll s = g.range(1, 4);
        ll lo = y.first + y.stride * s * (y.len - 1);
        if (lo < 0) break;
        bool left = g.flip();
        x = left ? Domain<1>((stride_scalar_type)s * x) : Domain<1>(x * (stride_scalar_type)s); y.stride *= s; g.note() << " *" << s;
        break;
      }
      default:
      {
        ll s = g.range(1, 4);
        x = x / (stride_scalar_type)s; y.stride /= s; g.note() << " /" << s;
      }
    }
    same(g, x, y, "after arithmetic");
  }
  same(g, d, m, "the operand");
  if (m.len > 1 && m.stride != 1) g.nontrivial();
  g.label(m.stride < 0 ? "negative stride" : m.stride == 0 ? "stride 0" : m.stride == 1 ? "unit stride" : "positive stride");
}

// Equality is equality of index sets.
PROP(domain_equality, 60000, 1200000)
{
  M1 a = gen1(g), b;
  unsigned k = g.draw(6);
  b = a;
  if (k == 1) { b.first = a.first + (a.len - 1) * a.stride; b.stride = -a.stride; }
  else if (k == 2) { b.len = std::max<ll>(1, a.len + g.range(-1, 1)); }
  else if (k == 3) { b.stride += g.range(-1, 1); }
  else if (k == 4) { b.first += g.range(0, 2); }
  else if (k == 5) b = gen1(g);
  ll last = b.first + (b.len - 1) * b.stride;
  if (last < 0) b.first -= last;
  if ((a.stride == 0 && a.len > 1) || (b.stride == 0 && b.len > 1)) g.discard();   // repeated indexes: not a set
  g.note() << a << " == " << b;
  std::vector<ll> sa = a.seq(), sb = b.seq();
  std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end());
  bool eq = sa == sb;
  Domain<1> x = real(a), y = real(b);
  REQUIRE(g, (x == y) == eq, "== says " << (x == y)); REQUIRE(g, (y == x) == eq, "reversed == says " << (y == x));
  REQUIRE(g, (x != y) == !eq, "!="); REQUIRE(g, x == x, "reflexive");
  REQUIRE(g, x.element_conformant(y) == (a.len == b.len), "element_conformant");
  REQUIRE(g, !x.product_conformant(Domain<2>(x, y)), "product_conformant<1>");
  Domain<2> x2(x, real(gen1(g))), y2(y, g.flip() ? Domain<1>(x2[1]) : real(gen1(g)));
  REQUIRE(g, (x2 == y2) == (x == y2[0] && x2[1] == y2[1]), "2-D equality is componentwise");
  REQUIRE(g, (x2 != y2) == !(x2 == y2), "2-D !=");
  REQUIRE(g, x2.element_conformant(y2) == (x2[0].length() == y2[0].length() && x2[1].length() == y2[1].length()), "2-D element_conformant");
  REQUIRE(g, x2.product_conformant(y2) == (x2[1].length() == y2[0].length()), "2-D product_conformant");
  Domain<3> x3(x, x2[1], y), y3(y, y2[1], g.flip() ? y : x);
  REQUIRE(g, (x3 == y3) == (x3[0] == y3[0] && x3[1] == y3[1] && x3[2] == y3[2]), "3-D equality is componentwise");
  if (eq && k != 0) g.nontrivial(); else if (!eq) g.nontrivial();
  g.label(eq ? k == 0 ? "same" : "equal, written differently" : "different");
}

template <dimension_type D> struct mk;
template <> struct mk<2> { static Domain<2> d(std::vector<M1> const &m) { return Domain<2>(real(m[0]), real(m[1])); } };
template <> struct mk<3> { static Domain<3> d(std::vector<M1> const &m) { return Domain<3>(real(m[0]), real(m[1]), real(m[2])); } };
template <dimension_type D> static void multi(pbt::Gen &g)
{
  std::vector<M1> m; for (dimension_type d = 0; d < D; ++d) { m.push_back(gen1(g)); g.note() << m[d]; }
  Domain<D> x = mk<D>::d(m), c(x), a; a = x;
  ll size = 1; for (auto &e : m) size *= e.len;
  REQUIRE(g, (ll)x.size() == size, "size " << x.size());
  unsigned op = g.draw(4); ll s = op == 0 ? g.range(0, 9) : g.range(1, 3);
  std::vector<M1> r = m; Domain<D> y(x); bool applied = true;
  if (op == 0) { for (auto &e : r) e.first += s; y = g.flip() ? x + (index_difference_type)s : (index_difference_type)s + x; }
  else if (op == 1) { for (auto &e : r) { e.first -= s; if (e.first < 0 || e.first + e.stride * (e.len - 1) < 0) applied = false; } if (applied) y = x - (index_difference_type)s; }
  else if (op == 2) { for (auto &e : r) { e.stride *= s; if (e.first + e.stride * (e.len - 1) < 0) applied = false; } if (applied) y = g.flip() ? x * (stride_scalar_type)s : (stride_scalar_type)s * x; }
  else { for (auto &e : r) { e.stride /= s; } if (applied) y = x / (stride_scalar_type)s; }
  for (dimension_type d = 0; d < D; ++d)
  { same(g, x[d], m[d], "operand"); same(g, c[d], m[d], "copy"); same(g, a[d], m[d], "assigned"); if (applied) same(g, y[d], r[d], "result"); }
  Domain<D> def; for (dimension_type d = 0; d < D; ++d) same(g, def[d], M1{0, 1, 1}, "default");
  if (applied && size > 1) g.nontrivial();
  g.note() << " op " << op << " " << s;
}
PROP(domain_2d, 20000, 400000) { multi<2>(g); }
PROP(domain_3d, 20000, 400000) { multi<3>(g); }

template <dimension_type D> struct ix;
template <> struct ix<1> { static Index<1> i(std::vector<ll> const &v) { return Index<1>(v[0]); } };
template <> struct ix<2> { static Index<2> i(std::vector<ll> const &v) { return Index<2>(v[0], v[1]); } };
template <> struct ix<3> { static Index<3> i(std::vector<ll> const &v) { return Index<3>(v[0], v[1], v[2]); } };
template <dimension_type D> static void indexes(pbt::Gen &g)
{
  std::vector<ll> a, b;
  for (dimension_type d = 0; d < D; ++d) { a.push_back(g.range(0, 50)); b.push_back(g.flip() ? a[d] : g.range(0, 50)); }
  Index<D> x = ix<D>::i(a), y = ix<D>::i(b), s = x + y, t = s - y, z, w(x); z = y;
  bool eq = true;
  for (dimension_type d = 0; d < D; ++d)
  {
    eq &= a[d] == b[d];
    REQUIRE(g, (ll)x[d] == a[d] && (ll)z[d] == b[d] && (ll)w[d] == a[d], "component " << d);
    REQUIRE(g, (ll)s[d] == a[d] + b[d] && (ll)t[d] == a[d], "sum/difference component " << d);
  }
  REQUIRE(g, (x == y) == eq, "=="); REQUIRE(g, (x != y) == !eq, "!="); REQUIRE(g, x == t, "x+y-y");
  for (dimension_type d = 0; d < D; ++d) { w[d] = b[d]; } REQUIRE(g, w == y, "component assignment");
  Index<D> def; for (dimension_type d = 0; d < D; ++d) REQUIRE(g, def[d] == 0, "default index");
  g.note() << "Index<" << D << "> " << a[0]; if (!eq) g.nontrivial();
}
PROP(index_1d, 5000, 50000) { indexes<1>(g); }
PROP(index_2d, 10000, 50000) { indexes<2>(g); }
PROP(index_3d, 10000, 50000) { indexes<3>(g); }

// far beyond any size one can allocate: the arithmetic is exact for every first index, stride and length that fit
PROP(domain_wide, 20000, 400000)
{
  auto wide = [&](int bits) { ll b = 1ll << g.range(1, bits); return g.flip(1, 3) ? b + g.range(-1, 1) : b + (ll)(g.dataseed() % (uint64_t)b); };
  M1 m; m.len = wide(40); m.stride = wide(18); if (g.flip()) m.stride = -m.stride; if (g.flip(1, 4)) m.stride = g.flip() ? 1 : -1; m.first = (m.stride < 0 ? -m.stride * (m.len - 1) : 0) + (g.flip(1, 3) ? 0 : wide(40)); g.note() << "domain " << m;
  Domain<1> d = real(m), c(d), a; a = c; int s = g.range(2, 9); ll off = wide(35);
  auto check = [&](Domain<1> const &x, M1 const &y, char const *what)
  {
    REQUIRE(g, (ll)x.first() == y.first && (ll)x.stride() == y.stride && (ll)x.length() == y.len && (ll)x.size() == y.len, what << " is [" << x.first() << ',' << x.stride() << ',' << x.length() << "], not " << y);
    REQUIRE(g, (ll)x.impl_last() == y.first + y.stride * (y.len - 1), what << " ends at " << x.impl_last());
    for (ll k : {0ll, y.len / 2, y.len - 1, (1ll << 31) - 1, 1ll << 31, (1ll << 32) - 1, 1ll << 32, (ll)(g.dataseed() % (uint64_t)y.len)}) if (k < y.len) REQUIRE(g, (ll)x.impl_nth(k) == y.first + y.stride * k, what << ": element " << k << " is " << x.impl_nth(k) << ", not " << y.first + y.stride * k);
  };
  check(d, m, "the domain"); check(a, m, "its copy"); M1 n = m; n.first += off; check(d + (index_difference_type)off, n, "sum"); check((index_difference_type)off + d, n, "sum, other order"); check(Domain<1>(d + (index_difference_type)off) - (index_difference_type)off, m, "difference");
  if (m.stride > 0) { n = m; n.stride *= s; check(d * (stride_scalar_type)s, n, "product"); check((stride_scalar_type)s * d, n, "product, other order"); check(Domain<1>(d * (stride_scalar_type)s) / (stride_scalar_type)s, m, "quotient"); }
  REQUIRE(g, d == c && !(d != c) && d + (index_difference_type)off != d, "equality"); n = m; n.len += wide(33); if (n.stride > 0) REQUIRE(g, real(n) != d && !(real(n) == d), "a longer domain is equal");
  if (m.first >> 31 == 0) { Domain<1> u(m.len); M1 w = {0, 1, m.len}; check(u, w, "Domain(length)"); }
  Index<2> i(m.len, m.first), j(i); REQUIRE(g, (ll)i[0] == m.len && (ll)i[1] == m.first && i == j, "index"); i[0] += off; REQUIRE(g, !(i == j) && (ll)i[0] == m.len + off, "index changed");
  if (m.len > 2) g.nontrivial(); g.label(m.len >> 31 ? "length beyond 32 bits" : "shorter");
}
// the set operations distribution is built from
PROP(domain_sets, 40000, 800000)
{
  M1 y = gen1(g), x; x.stride = 1; x.len = g.len(1, 60); x.first = g.range(0, 60); if (y.stride == 0) y.stride = 1; g.note() << x << " and " << y; Domain<1> before(7, 3, 5), r(before); std::vector<ll> common; for (ll v : y.seq()) if (v >= x.first && v < x.first + x.len) common.push_back(v);
  bool meet = ovxx::intersect(real(x), real(y), r); REQUIRE(g, meet == !common.empty(), "they are said to be " << (meet ? "overlapping" : "disjoint")); if (!meet) { REQUIRE(g, r == before, "the result of a disjoint intersection changes"); return; }
  REQUIRE(g, seq(r) == common, "the intersection is [" << r.first() << ',' << r.stride() << ',' << r.length() << ']');
  Domain<1> sub = ovxx::subset_from_intr(real(y), r); std::vector<ll> at = seq(sub), ys = y.seq(); REQUIRE(g, at.size() == common.size(), "the subset has " << at.size() << " elements"); for (size_t i = 0; i < at.size(); ++i) REQUIRE(g, at[i] >= 0 && at[i] < y.len && ys[at[i]] == common[i], "element " << i << " of the subset is " << at[i]);
  M1 p; p.len = x.len; p.stride = g.range(1, 5); p.first = g.range(0, 40); Domain<1> q = ovxx::apply_intr(real(p), real(x), r); std::vector<ll> qs = seq(q); for (size_t i = 0; i < qs.size(); ++i) REQUIRE(g, qs[i] == p.first + p.stride * (common[i] - x.first), "element " << i << " of the applied intersection is " << qs[i]);
  M1 y2 = gen1(g), x2 = {g.range(0, 30), 1, ll(g.len(1, 40))}; if (y2.stride == 0) y2.stride = 1; Domain<1> r2; bool m2 = ovxx::intersect(real(x2), real(y2), r2); Domain<2> rr; bool b = ovxx::intersect(Domain<2>(real(x), real(x2)), Domain<2>(real(y), real(y2)), rr); REQUIRE(g, b == m2, "two dimensions"); if (b) REQUIRE(g, rr == Domain<2>(r, r2), "the intersection in two dimensions");
  Domain<3> r3; b = ovxx::intersect(Domain<3>(real(x2), real(x), real(x2)), Domain<3>(real(y2), real(y), real(y2)), r3); REQUIRE(g, b == m2, "three dimensions"); if (b) REQUIRE(g, r3 == Domain<3>(r2, r, r2), "the intersection in three dimensions");
  if (common.size() > 1) g.nontrivial(); g.label(y.stride < 0 ? "descending" : y.stride > 1 ? "strided" : "contiguous");
}

#include "c04_elt.hpp"
static Case const c_[] = {
  TT(am, float, float, 2, (x + y) * z), TT(am, double, double, 2, (x + y) * z), TT(am, int, int, 0, (x + y) * z), TT(am, CF, CF, 64, (x + y) * z),
  TT(ma, float, float, 2, x * y + z), TT(ma, double, double, 2, x * y + z), TT(ma, int, int, 0, x * y + z), TT(ma, CF, CF, 64, x * y + z),
  TT(msb, float, float, 2, x * y - z), TT(msb, double, double, 2, x * y - z), TT(msb, int, int, 0, x * y - z), TT(msb, CF, CF, 64, x * y - z),
  TT(sbm, float, float, 2, (x - y) * z), TT(sbm, double, double, 2, (x - y) * z), TT(sbm, int, int, 0, (x - y) * z), TT(sbm, CF, CF, 64, (x - y) * z),
  TT(expoavg, float, float, 2, x * y + (1 - x) * z), TT(expoavg, double, double, 2, x * y + (1 - x) * z), TT(expoavg, CF, CF, 64, x * y + (1.0L - x) * z),
};
PROP(ternary_, 20000, 300000) { c_[g.draw(sizeof c_ / sizeof *c_)].fn(g); }

PROP(ite_, 6000, 100000)
{
  size_t n = g.large(g.len(1, 24), 2000); auto b = values<bool>(g, boolean, n); auto x = values<float>(g, any, n), y = values<float>(g, any, n); g.note() << "ite(" << b << x << y << ")"; g.nontrivial();
  Vector<bool> p(n); Vector<float> u(n), v(n); std::vector<L> w, w1, w2; for (size_t i = 0; i < n; ++i) { p.put(i, b.v[i]); u.put(i, x.v[i]); v.put(i, y.v[i]); w.push_back(b.v[i] ? x.v[i] : y.v[i]); w1.push_back(b.v[i] ? x.v[i] : y.v[0]); w2.push_back(b.v[i] ? x.v[0] : y.v[i]); }
  results<float>(g, "ite", ite(p, u, v), w, 0, ""); results<float>(g, "ite", ite(p, u, y.v[0]), w1, 0, "(view,view,scalar)"); results<float>(g, "ite", ite(p, x.v[0], v), w2, 0, "(view,scalar,view)");
  std::vector<L> w3; for (size_t i = 0; i < n; ++i) w3.push_back(x.v[i] < y.v[i] ? x.v[i] : -y.v[i]); results<float>(g, "ite", ite(u < v, u, -v), w3, 0, " of expressions");
}
// user functions
static int u1(float x) { return (int)std::ceil(x) * 2 + 1; }
static double u1d(int x) { return x * 0.5 + 0.25; }
static double u2(float x, int y) { return x * 10.0 + y + 0.5; }
static int u3(float x, float y, float z) { return (int)(x * 100 + y * 10 + z); }
struct fo { int k; int operator()(float x) const { return (int)x + k; } double operator()(float x, int y) const { return k * x - y + 0.5; } int operator()(float x, float y, float z) const { return (int)(x - y * k - z); } };
struct sf : std::binary_function<float, int, double> { double operator()(float x, int y) const { return x - 2 * y + 0.25; } };
PROP(user_functions, 10000, 150000)
{
  size_t n = g.large(g.len(1, 24), 2000); auto x = values<float>(g, ints, n), y = values<float>(g, ints, n), z = values<float>(g, ints, n); auto k = values<int>(g, ints, n); fo f{(int)g.range(-5, 5)}; g.note() << "user functions of " << x << k << " constant " << f.k; g.nontrivial();
  Vector<float> a(n), b(n), c(n); Vector<int> d(n); for (size_t i = 0; i < n; ++i) { a.put(i, x.v[i]); b.put(i, y.v[i]); c.put(i, z.v[i]); d.put(i, k.v[i]); }
  std::vector<int> w1, w2, w6, w7; std::vector<L> w3, w4, w5, w8, w9;
  for (size_t i = 0; i < n; ++i) { w1.push_back(u1(x.v[i])); w2.push_back(f(x.v[i])); w3.push_back(u1d(k.v[i])); w4.push_back(u2(x.v[i], k.v[i])); w5.push_back(f(x.v[i], k.v[i])); w6.push_back(u3(x.v[i], y.v[i], z.v[i])); w7.push_back(f(x.v[i], y.v[i], z.v[i])); w8.push_back(x.v[i] - 2 * k.v[i] + 0.25); }
  results<int>(g, "unary(int(*)(float))", vsip::unary(u1, a), w1, 0, ""); results<int>(g, "unary<int>(object)", vsip::unary<int>(f, a), w2, 0, ""); results<int>(g, "unary<int>(ptr_fun)", vsip::unary<int>(std::ptr_fun(u1), a), w1, 0, "");
  results<double>(g, "unary(double(*)(int))", vsip::unary(u1d, d), w3, 0, "");
  results<double>(g, "binary(pointer)", vsip::binary(u2, a, d), w4, 0, ""); results<double>(g, "binary<double>(object)", vsip::binary<double>(f, a, d), w5, 0, ""); results<double>(g, "binary(std functor)", vsip::binary(sf(), a, d), w8, 0, "");
  results<int>(g, "ternary(pointer)", vsip::ternary(u3, a, b, c), w6, 0, ""); results<int>(g, "ternary<int>(object)", vsip::ternary<int>(f, a, b, c), w7, 0, "");
}

// C22 window functions
#include <vsip/vector.hpp>
#include <vsip/signal.hpp>
#include "pbt.hpp"
#include <cmath>
using namespace vsip;
typedef long double ld;
static ld const PI = 3.14159265358979323846264338327950288L;
inline size_t wlen(pbt::Gen &g) { return g.pick({(size_t)2, (size_t)3, (size_t)(2 + g.draw(12)), (size_t)(2 + g.draw(120)), (size_t)(2 + g.draw(1200))}); }
template <class V> void compare(pbt::Gen &g, V const &v, std::vector<ld> const &w, std::vector<ld> const &tol)
{
  REQUIRE(g, v.size() == w.size(), "the window has " << v.size() << " elements"); for (size_t i = 0; i < w.size(); ++i) REQUIRE(g, std::abs((ld)v.get(i) - w[i]) <= tol[i], "element " << i << " is " << v.get(i) << ", not " << (double)w[i] << " (+-" << (double)tol[i] << ")"); if (w.size() > 3) g.nontrivial(); g.label(w.size() % 2 ? "odd" : "even");
}
PROP(c22_blackman, 300, 6000) { size_t n = wlen(g); g.note() << "blackman " << n; std::vector<ld> w(n), t(n, 3e-6L); for (size_t i = 0; i < n; ++i) w[i] = 0.42L - 0.5L * cosl(2 * PI * i / (n - 1)) + 0.08L * cosl(4 * PI * i / (n - 1)); compare(g, blackman(n), w, t); }
PROP(c22_hanning, 300, 6000) { size_t n = wlen(g); g.note() << "hanning " << n; std::vector<ld> w(n), t(n, 3e-6L); for (size_t i = 0; i < n; ++i) w[i] = 0.5L * (1 - cosl(2 * PI * (i + 1) / (n + 1))); compare(g, hanning(n), w, t); }
inline ld I0(ld x) { ld t = 1, s = 1, q = x * x / 4; for (int k = 1; k < 2000 && t > s * 1e-20L; ++k) { t *= q / ((ld)k * k); s += t; } return s; }
PROP(c22_kaiser, 600, 12000)
{
  size_t n = wlen(g); ld b = (ld)g.draw(g.flip() ? 240 : 1200) / 16; float beta = (float)b; g.note() << "kaiser " << n << " beta " << beta; std::vector<ld> w(n), t(n); ld top = I0(b);
  for (size_t i = 0; i < n; ++i) { ld c = 2.L * i / (n - 1) - 1; w[i] = I0(b * sqrtl(std::max(0.L, 1 - c * c))) / top; t[i] = w[i] * (1e-6L * (4 + b) + b * b * 2e-7L) + 1e-12L; } compare(g, kaiser(n, beta), w, t); g.label(b <= 3 ? "small" : b > 18 ? "large" : "middling");
}
// Dolph-Chebyshev: the transform of W(k) = cos or cosh((n-1) acos|acosh(x0 cos(pi k/n))), normalized to 1 in the middle, as C-VSIPL defines it
PROP(c22_cheby, 400, 6000)
{
  size_t n = wlen(g); if (n > 300) n = 2 + n % 299; float ripple = (float)(20 + g.draw(81)); g.note() << "cheby " << n << " ripple " << ripple; ld dp = powl(10, -(ld)ripple / 20), df = acosl(1 / coshl(acoshl((1 + dp) / dp) / (n - 1))) / PI, x0 = (3 - cosl(2 * PI * df)) / (1 + cosl(2 * PI * df)), al = (x0 + 1) / 2, be = (x0 - 1) / 2;
  std::vector<ld> W(n); for (size_t k = 0; k < n; ++k) { ld x = al * cosl(2 * PI * k / n) + be; ld h = (n - 1) / 2.L; W[k] = std::abs(x) > 1 ? dp * (x > 0 ? coshl(h * acoshl(x)) : cosl(h * PI) * coshl(h * acoshl(-x))) : dp * cosl(h * acosl(x)); }
  std::vector<ld> wt(n), w(n), t(n, 2e-3L);
  for (size_t m = 0; m < n; ++m) { ld s = 0; for (size_t k = 0; k < n; ++k) { if (n % 2) s += W[k] * cosl(2 * PI * ((k * m) % n) / n); else s += (k >= n / 2 ? -1 : 1) * W[k] * cosl(PI * k / n + 2 * PI * ((k * m) % n) / n); } wt[m] = s; }
  for (size_t m = 0; m < n; ++m) { w[m] = wt[(m + (n + 1) / 2) % n] / wt[0]; t[m] = 2e-3L * std::max(1.L, std::abs(w[m])); }
  compare(g, cheby(n, ripple), w, t);
}

#include "c04_elt.hpp"
static L sqr(L x) { return x * x; }
static Case const cplx_[] = {
  U(arg, CF, float, small, 4, std::atan2(x.imag(), x.real())), U(arg, CD, double, small, 4, std::atan2(x.imag(), x.real())),
  U(conj, CF, CF, small, 0, LC(x.real(), -x.imag())), U(conj, CD, CD, small, 0, LC(x.real(), -x.imag())),
  U(real, CF, float, small, 0, x.real()), U(imag, CF, float, small, 0, x.imag()), U(real, CD, double, small, 0, x.real()), U(imag, CD, double, small, 0, x.imag()),
  U(mag, CF, float, small, 4, std::sqrt(sqr(x.real()) + sqr(x.imag()))), U(mag, CD, double, small, 4, std::sqrt(sqr(x.real()) + sqr(x.imag()))),
  U(magsq, CF, float, small, 4, sqr(x.real()) + sqr(x.imag())), U(magsq, CD, double, small, 4, sqr(x.real()) + sqr(x.imag())),
  U(neg, CF, CF, small, 0, LC(-x.real(), -x.imag())), U(neg, CD, CD, small, 0, LC(-x.real(), -x.imag())),
  U(sq, CF, CF, small, 8, LC(sqr(x.real()) - sqr(x.imag()), 2 * x.real() * x.imag())), U(sq, CD, CD, small, 8, LC(sqr(x.real()) - sqr(x.imag()), 2 * x.real() * x.imag())),
  U(recip, CF, CF, nonzero, 8, std::conj(x) / std::norm(x)), U(recip, CD, CD, nonzero, 8, std::conj(x) / std::norm(x)),
  U(cos, CF, CF, small, 32, LC(std::cos(x.real()) * std::cosh(x.imag()), -std::sin(x.real()) * std::sinh(x.imag()))),
  U(sin, CF, CF, small, 32, LC(std::sin(x.real()) * std::cosh(x.imag()), std::cos(x.real()) * std::sinh(x.imag()))),
  U(cosh, CF, CF, small, 32, LC(std::cosh(x.real()) * std::cos(x.imag()), std::sinh(x.real()) * std::sin(x.imag()))),
  U(sinh, CF, CF, small, 32, LC(std::sinh(x.real()) * std::cos(x.imag()), std::cosh(x.real()) * std::sin(x.imag()))),
  U(cos, CD, CD, small, 32, LC(std::cos(x.real()) * std::cosh(x.imag()), -std::sin(x.real()) * std::sinh(x.imag()))),
  U(sin, CD, CD, small, 32, LC(std::sin(x.real()) * std::cosh(x.imag()), std::cos(x.real()) * std::sinh(x.imag()))),
  U(exp, CF, CF, small, 32, std::exp(x.real()) * LC(std::cos(x.imag()), std::sin(x.imag()))), U(exp, CD, CD, small, 32, std::exp(x.real()) * LC(std::cos(x.imag()), std::sin(x.imag()))),
  U(log, CF, CF, nonzero, 16, LC(std::log(std::abs(x)), std::atan2(x.imag(), x.real()))), U(log, CD, CD, nonzero, 16, LC(std::log(std::abs(x)), std::atan2(x.imag(), x.real()))),
  U(log10, CF, CF, nonzero, 16, LC(std::log(std::abs(x)), std::atan2(x.imag(), x.real())) / std::log(10.0L)), U(log10, CD, CD, nonzero, 16, LC(std::log(std::abs(x)), std::atan2(x.imag(), x.real())) / std::log(10.0L)),
  U(sqrt, CF, CF, nonzero, 16, std::polar(std::sqrt(std::abs(x)), std::atan2(x.imag(), x.real()) / 2)), U(sqrt, CD, CD, nonzero, 16, std::polar(std::sqrt(std::abs(x)), std::atan2(x.imag(), x.real()) / 2)),
  U(rsqrt, CF, CF, nonzero, 16, std::polar(1 / std::sqrt(std::abs(x)), -std::atan2(x.imag(), x.real()) / 2)), U(rsqrt, CD, CD, nonzero, 16, std::polar(1 / std::sqrt(std::abs(x)), -std::atan2(x.imag(), x.real()) / 2)),
  U(tanh, CD, CD, unit, 64, std::sinh(x) / std::cosh(x)), U(tan, CD, CD, unit, 256, std::sin(x) / std::cos(x)),
  U(euler, float, CF, angle, 4, LC(std::cos(x), std::sin(x))), U(euler, double, CD, angle, 4, LC(std::cos(x), std::sin(x))),
  U(is_finite, CF, bool, special, 0, std::isfinite(x.real()) && std::isfinite(x.imag())), U(is_nan, CF, bool, special, 0, x.real() != x.real() || x.imag() != x.imag()),
  U(is_normal, CF, bool, special, 0, std::isnormal(v.real()) && std::isnormal(v.imag())),
};
PROP(unary_complex, 40000, 600000) { cplx_[g.draw(sizeof cplx_ / sizeof *cplx_)].fn(g); }

PROP(polar, 8000, 100000)
{
  size_t n = g.large(g.len(1, 30), 2000); auto a = values<CF>(g, small, n); auto r = values<float>(g, pos, n), t = values<float>(g, angle, n); g.note() << "polar of " << a << ", rect of " << r << t; g.nontrivial();
  with_vector<CF, V_basic>(g, n, [&](auto &z) { with_vector<float, V_dense + V_subset>(g, n, [&](auto &rho) {
    z.set(a); Vector<float> th(n); recttopolar(z.view, rho.view, th);
    for (size_t i = 0; i < n; ++i)
    {
      LC x(a.v[i]); REQUIRE(g, closeto<float>::is(rho.view.get(i), std::sqrt(std::norm(x)), 4), "recttopolar: magnitude " << i << " of " << x); REQUIRE(g, closeto<float>::is(th.get(i), std::atan2(x.imag(), x.real()), 4), "recttopolar: phase " << i << " of " << x);
      float m, p; recttopolar(a.v[i], m, p); REQUIRE(g, closeto<float>::is(m, std::sqrt(std::norm(x)), 4) && closeto<float>::is(p, std::atan2(x.imag(), x.real()), 4), "scalar recttopolar of " << x);
    }
    rho.set(r); for (size_t i = 0; i < n; ++i) th.put(i, t.v[i]);
    std::vector<LC> want, c, w1, w2; for (size_t i = 0; i < n; ++i) { want.push_back(std::polar((L)r.v[i], (L)t.v[i])); c.push_back(LC(r.v[i], t.v[i])); w1.push_back(std::polar((L)r.v[i], (L)t.v[0])); w2.push_back(std::polar((L)r.v[0], (L)t.v[i])); }
    results<CF>(g, "polartorect", polartorect(rho.view, th), want, 4, "");
    results<CF>(g, "polartorect", polartorect(rho.view, t.v[0]), w1, 4, "(view,scalar)");
    results<CF>(g, "polartorect", polartorect(r.v[0], th), w2, 4, "(scalar,view)");
    results<CF>(g, "cmplx", cmplx(rho.view, th), c, 0, "");
    REQUIRE(g, closeto<CF>::is(polartorect(r.v[0], t.v[0]), want[0], 4), "scalar polartorect"); REQUIRE(g, polartorect(r.v[0]) == CF(r.v[0]), "scalar polartorect of one argument"); }); });
}

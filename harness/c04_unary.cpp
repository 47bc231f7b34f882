#include "c04_elt.hpp"
static Case const real_[] = {
  U(acos, float, float, unit, 4, std::acos(x)), U(asin, float, float, unit, 4, std::asin(x)), U(atan, float, float, any, 4, std::atan(x)),
  U(acos, double, double, unit, 4, std::acos(x)), U(asin, double, double, unit, 4, std::asin(x)), U(atan, double, double, any, 4, std::atan(x)),
  U(ceil, float, float, any, 0, std::ceil(x)), U(floor, float, float, any, 0, std::floor(x)), U(ceil, double, double, any, 0, std::ceil(x)), U(floor, double, double, any, 0, std::floor(x)),
  U(cos, float, float, any, 4, std::cos(x)), U(sin, float, float, any, 4, std::sin(x)), U(tan, float, float, unit, 8, std::tan(x)),
  U(cos, double, double, any, 4, std::cos(x)), U(sin, double, double, any, 4, std::sin(x)), U(tan, double, double, unit, 8, std::tan(x)),
  U(cosh, float, float, small, 8, std::cosh(x)), U(sinh, float, float, small, 8, std::sinh(x)), U(tanh, float, float, small, 8, std::tanh(x)),
  U(cosh, double, double, small, 8, std::cosh(x)), U(sinh, double, double, small, 8, std::sinh(x)), U(tanh, double, double, small, 8, std::tanh(x)),
  U(exp, float, float, small, 8, std::exp(x)), U(exp10, float, float, small, 16, std::pow(10.0L, x)), U(log, float, float, pos, 8, std::log(x)), U(log10, float, float, pos, 8, std::log10(x)),
  U(exp, double, double, small, 8, std::exp(x)), U(exp10, double, double, small, 32, std::pow(10.0L, x)), U(log, double, double, pos, 8, std::log(x)), U(log10, double, double, pos, 8, std::log10(x)),
  U(sqrt, float, float, pos, 4, std::sqrt(x)), U(rsqrt, float, float, pos, 8, 1 / std::sqrt(x)), U(recip, float, float, nonzero, 4, 1 / x), U(sq, float, float, any, 2, x * x),
  U(sqrt, double, double, pos, 4, std::sqrt(x)), U(rsqrt, double, double, pos, 8, 1 / std::sqrt(x)), U(recip, double, double, nonzero, 4, 1 / x), U(sq, double, double, any, 2, x * x),
  U(mag, float, float, any, 0, x < 0 ? -x : x), U(magsq, float, float, any, 2, x * x), U(neg, float, float, any, 0, -x),
  U(mag, double, double, any, 0, x < 0 ? -x : x), U(magsq, double, double, any, 2, x * x), U(neg, double, double, any, 0, -x),
  U(mag, int, int, ints, 0, x < 0 ? -x : x), U(magsq, int, int, ints, 0, x * x), U(neg, int, int, ints, 0, -x), U(sq, int, int, ints, 0, x * x),
  U(bnot, int, int, bits, 0, -x - 1), U(lnot, bool, bool, boolean, 0, x ? false : true),
  U(is_finite, float, bool, special, 0, !(v != v) && v <= std::numeric_limits<float>::max() && v >= -std::numeric_limits<float>::max()), U(is_nan, float, bool, special, 0, v != v),
  U(is_normal, float, bool, special, 0, (v < 0 ? -v : v) >= std::numeric_limits<float>::min() && (v < 0 ? -v : v) <= std::numeric_limits<float>::max()),
  U(is_finite, double, bool, special, 0, !(v != v) && v <= std::numeric_limits<double>::max() && v >= -std::numeric_limits<double>::max()), U(is_nan, double, bool, special, 0, v != v),
  U(is_normal, double, bool, special, 0, (v < 0 ? -v : v) >= std::numeric_limits<double>::min() && (v < 0 ? -v : v) <= std::numeric_limits<double>::max()),
};
PROP(unary_real, 40000, 600000) { real_[g.draw(sizeof real_ / sizeof *real_)].fn(g); }

#include "c04_elt.hpp"
static L ab(LC x) { return std::abs(x); }
static Case const c_[] = {
  B(add, CF, CF, CF, small, small, 4, true, x + y), B(sub, CF, CF, CF, small, small, 4, true, x - y), B(mul, CF, CF, CF, small, small, 8, true, x * y), B(div, CF, CF, CF, small, nonzero, 16, true, x / y),
  B(add, CD, CD, CD, small, small, 4, true, x + y), B(sub, CD, CD, CD, small, small, 4, true, x - y), B(mul, CD, CD, CD, small, small, 8, true, x * y), B(div, CD, CD, CD, small, nonzero, 16, true, x / y),
  B(add, CF, float, CF, small, small, 4, true, x + y), B(sub, float, CF, CF, small, small, 4, true, x - y), B(mul, CF, float, CF, small, small, 4, true, x * y), B(div, float, CF, CF, small, nonzero, 16, true, x / y), B(div, CF, float, CF, small, nonzero, 4, true, x / y),
  B(jmul, CF, CF, CF, small, small, 8, true, x * std::conj(y)), B(jmul, CD, CD, CD, small, small, 8, true, x * std::conj(y)), B(jmul, CF, CD, CD, small, small, 8, true, x * std::conj(y)), B(jmul, CD, CF, CD, small, small, 8, true, x * std::conj(y)),
  B(eq, CF, CF, bool, ints, ints, 0, true, v.real() == w.real() && v.imag() == w.imag()), B(ne, CF, CF, bool, ints, ints, 0, true, v.real() != w.real() || v.imag() != w.imag()),
  B(maxmg, CF, CF, float, small, small, 4, true, std::max(ab(x), ab(y))), B(minmg, CF, CF, float, small, small, 4, true, std::min(ab(x), ab(y))),
  B(maxmgsq, CF, CF, float, small, small, 8, true, std::max(std::norm(x), std::norm(y))), B(minmgsq, CF, CF, float, small, small, 8, true, std::min(std::norm(x), std::norm(y))),
  B(pow, CF, CF, CF, nonzero, unit, 1024, true, std::exp(y * std::log(x))), B(pow, CD, CD, CD, nonzero, unit, 1024, true, std::exp(y * std::log(x))),
  O(+, CF, CF, CF, small, small, 4, x + y), O(-, CF, CF, CF, small, small, 4, x - y), O(*, CF, CF, CF, small, small, 8, x * y), O(/, CF, CF, CF, small, nonzero, 16, x / y), O(*, CF, float, CF, small, small, 4, x * y), O(-, float, CF, CF, small, small, 4, x - y), O(/, float, CF, CF, small, nonzero, 16, x / y),
};
PROP(binary_complex, 30000, 400000) { c_[g.draw(sizeof c_ / sizeof *c_)].fn(g); }

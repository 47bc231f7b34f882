#include "c04_elt.hpp"
static L ab(L x) { return x < 0 ? -x : x; }
static L ab(LC x) { return std::abs(x); }
static Case const c_[] = {
  B(add, float, float, float, ints, ints, 0, true, x + y), B(sub, float, float, float, ints, ints, 0, true, x - y), B(mul, float, float, float, ints, ints, 0, true, x * y), B(div, float, float, float, ints, nonzero, 2, true, x / y),
  B(add, double, double, double, any, any, 2, true, x + y), B(sub, double, double, double, any, any, 2, true, x - y), B(mul, double, double, double, any, any, 2, true, x * y), B(div, double, double, double, any, nonzero, 2, true, x / y),
  B(add, int, int, int, ints, ints, 0, true, x + y), B(sub, int, int, int, ints, ints, 0, true, x - y), B(mul, int, int, int, ints, ints, 0, true, x * y), B(div, int, int, int, ints, nonzero, 0, false, x / y),
  B(add, float, double, double, any, any, 2, true, x + y), B(sub, double, float, double, any, any, 2, true, x - y), B(mul, float, double, double, any, any, 2, true, x * y), B(sub, int, float, float, ints, ints, 0, true, x - y),
  B(atan2, float, float, float, any, any, 4, true, std::atan2(x, y)), B(atan2, double, double, double, any, any, 4, true, std::atan2(x, y)),
  B(band, int, int, int, bits, bits, 0, true, x & y), B(bor, int, int, int, bits, bits, 0, true, x | y), B(bxor, int, int, int, bits, bits, 0, true, x ^ y),
  B(eq, float, float, bool, ints, ints, 0, true, !(x < y) && !(y < x)), B(ne, float, float, bool, ints, ints, 0, true, x < y || y < x), B(ge, float, float, bool, ints, ints, 0, true, !(x < y)), B(gt, float, float, bool, ints, ints, 0, true, y < x),
  B(le, float, float, bool, ints, ints, 0, true, !(y < x)), B(lt, float, float, bool, ints, ints, 0, true, x < y), B(eq, int, int, bool, ints, ints, 0, true, x - y == 0), B(ne, int, int, bool, ints, ints, 0, true, x - y != 0),
  B(ge, int, int, bool, ints, ints, 0, true, x - y >= 0), B(gt, int, int, bool, ints, ints, 0, true, x - y > 0), B(le, int, int, bool, ints, ints, 0, true, x - y <= 0), B(lt, int, int, bool, ints, ints, 0, true, x - y < 0),
  B(fmod, float, float, float, any, nonzero, 8, true, std::fmod(x, y)), B(fmod, double, double, double, any, nonzero, 8, true, std::fmod(x, y)),
  B(hypot, float, float, float, any, any, 4, true, std::sqrt(x * x + y * y)), B(hypot, double, double, double, any, any, 4, true, std::sqrt(x * x + y * y)),
  B(land, bool, bool, bool, boolean, boolean, 0, true, x ? y : false), B(lor, bool, bool, bool, boolean, boolean, 0, true, x ? true : y), B(lxor, bool, bool, bool, boolean, boolean, 0, true, x ? !y : y),
  B(max, float, float, float, ints, ints, 0, true, x < y ? y : x), B(min, float, float, float, ints, ints, 0, true, x < y ? x : y), B(max, double, double, double, any, any, 0, true, x < y ? y : x), B(min, int, int, int, ints, ints, 0, true, x < y ? x : y),
  B(maxmg, float, float, float, ints, ints, 0, true, std::max(ab(x), ab(y))), B(minmg, float, float, float, ints, ints, 0, true, std::min(ab(x), ab(y))), B(maxmgsq, float, float, float, ints, ints, 0, true, std::max(x * x, y * y)), B(minmgsq, float, float, float, ints, ints, 0, true, std::min(x * x, y * y)),
  B(pow, float, float, float, pos, small, 32, true, std::pow(x, y)), B(pow, double, double, double, pos, small, 64, true, std::pow(x, y)),
};
PROP(binary_real, 40000, 600000) { c_[g.draw(sizeof c_ / sizeof *c_)].fn(g); }

#include "c04_elt.hpp"
static Case const c_[] = {
  O(+, float, float, float, ints, ints, 0, x + y), O(-, float, float, float, ints, ints, 0, x - y), O(*, float, float, float, ints, ints, 0, x * y), O(/, float, float, float, ints, nonzero, 2, x / y),
  O(+, int, int, int, ints, ints, 0, x + y), O(-, int, int, int, ints, ints, 0, x - y), O(*, int, int, int, ints, ints, 0, x * y), O(/, int, int, int, ints, nonzero, 0, x / y),
  O(+, float, double, double, any, any, 2, x + y), O(-, double, float, double, any, any, 2, x - y), O(*, int, double, double, ints, any, 2, x * y), O(/, short, float, float, ints, nonzero, 2, x / y),
  O(==, float, float, bool, ints, ints, 0, !(x < y) && !(y < x)), O(!=, float, float, bool, ints, ints, 0, x < y || y < x), O(>=, float, float, bool, ints, ints, 0, !(x < y)), O(>, float, float, bool, ints, ints, 0, y < x), O(<=, float, float, bool, ints, ints, 0, !(y < x)), O(<, float, float, bool, ints, ints, 0, x < y),
  O(&&, bool, bool, bool, boolean, boolean, 0, x ? y : false), O(||, bool, bool, bool, boolean, boolean, 0, x ? true : y), O(^, bool, bool, bool, boolean, boolean, 0, x ? !y : y),
  O(&, int, int, int, bits, bits, 0, x & y), O(|, int, int, int, bits, bits, 0, x | y), O(^, int, int, int, bits, bits, 0, x ^ y),
  { [](pbt::Gen &g) { unary<float, float>(g, "operator-", any, [](auto const &x) { return -x; }, [](float v) { return -W(v); }, 0); } },
  { [](pbt::Gen &g) { unary<int, int>(g, "operator-<int>", ints, [](auto const &x) { return -x; }, [](int v) { return -v; }, 0); } },
  { [](pbt::Gen &g) { unary<CF, CF>(g, "operator-<complex>", small, [](auto const &x) { return -x; }, [](CF v) { return -W(v); }, 0); } },
  { [](pbt::Gen &g) { unary<float, float>(g, "operator+", any, [](auto const &x) { return +x; }, [](float v) { return W(v); }, 0); } },
  { [](pbt::Gen &g) { unary<bool, bool>(g, "operator!", boolean, [](auto const &x) { return !x; }, [](bool v) { return v ? false : true; }, 0); } },
  { [](pbt::Gen &g) { unary<int, int>(g, "operator~", bits, [](auto const &x) { return ~x; }, [](int v) { return -v - 1; }, 0); } },
};
PROP(operators_, 40000, 600000) { c_[g.draw(sizeof c_ / sizeof *c_)].fn(g); }

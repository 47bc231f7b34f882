// C24, C25: sides which are subviews of subviews: of transposes, rows and columns
#ifndef C24_SUB
#define C24_SUB
#include "c24_par.hpp"
template <class T, class Blk> struct SubTrans { static int const dim = 2; typedef T value_type; doms<2> d; size_t s[2]; Whole<2, T, Blk> w; SubTrans(pbt::Gen &g, size_t const *m) : d(g, m), s{d.n[1], d.n[0]}, w(g, s) { g.note() << "subset of the transpose; "; } auto view() { return w.v.transpose()(d.get()); } size_t pos(Ix<2> x) { return linear<2>(Ix<2>{(index_type)d.d[1].impl_nth(x[1]), (index_type)d.d[0].impl_nth(x[0])}, w.n); } };
template <class T, class Blk> struct TransSub { static int const dim = 2; typedef T value_type; size_t t[2]; doms<2> d; Whole<2, T, Blk> w; TransSub(pbt::Gen &g, size_t const *m) : t{m[1], m[0]}, d(g, t), w(g, d.n) { g.note() << "transpose of the subset; "; } auto view() { return w.v(d.get()).transpose(); } size_t pos(Ix<2> x) { return linear<2>(Ix<2>{(index_type)d.d[0].impl_nth(x[1]), (index_type)d.d[1].impl_nth(x[0])}, w.n); } };
template <class T, class Blk> struct Twice { static int const dim = 2; typedef T value_type; Whole<2, T, Blk> w; Twice(pbt::Gen &g, size_t const *m) : w(g, m) { g.note() << "transposed twice; "; } auto view() { return w.v.transpose().transpose(); } size_t pos(Ix<2> x) { return linear<2>(x, w.n); } };
template <class Base> struct Sub1 { static int const dim = 1; typedef typename Base::value_type value_type; doms<1> d; Base b; decltype(b.w) &w; Sub1(pbt::Gen &g, size_t const *m) : d(g, m), b(g, d.n), w(b.w) { g.note() << "subset of it; "; } auto view() { return b.view()(d.get()); } size_t pos(Ix<1> x) { return b.pos(Ix<1>{(index_type)d.d[0].impl_nth(x[0])}); } };
template <class Base> struct Sub2 { static int const dim = 2; typedef typename Base::value_type value_type; doms<2> d; Base b; decltype(b.w) &w; Sub2(pbt::Gen &g, size_t const *m) : d(g, m), b(g, d.n), w(b.w) { g.note() << "subset of it; "; } auto view() { return b.view()(d.get()); } size_t pos(Ix<2> x) { return b.pos(Ix<2>{(index_type)d.d[0].impl_nth(x[0]), (index_type)d.d[1].impl_nth(x[1])}); } };
#endif

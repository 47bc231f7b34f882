// C25 computing with distributed views: the sides of C24 as operands and destinations of expressions, reductions, element access, ...
#ifndef C25_PAR
#define C25_PAR
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include "c24_par.hpp"
typedef Map<B, W, W> MB; typedef Map<C, W, W> MC; typedef Map<W, W, W> MW; typedef Replicated_map<1> MR;
// operations: go computes with views, of with values (l: the old value of the destination)
#define OP(NAME, GO, OF) struct NAME { static char const *name() { return #NAME; } template <class L, class A, class Bv> static void go(L l, A a, Bv b) { (void)a; (void)b; GO; } template <class T, class U, class V> static T of(T l, U a, V b) { (void)l; (void)a; (void)b; return OF; } };
OP(op_neg, l = -a, -a) OP(op_add, l = a + b, a + b) OP(op_sub, l = a - b, a - b) OP(op_mul, l = a * b, a * b) OP(op_addto, l += a, l + a) OP(op_subfrom, l -= a * b, l - a * b) OP(op_timesto, l *= b, l *b)
OP(op_nest, l = (a - b) * (a + b) - a, (a - b) * (a + b) - a) OP(op_ma, l = ma(a, b, a), a *b + a) OP(op_am, l = am(a, b, b), (a + b) * b) OP(op_msb, l = msb(a, b, a), a *b - a) OP(op_self, l = l + a, l + a) OP(op_self2, l = b - l * a, b - l * a)
#define SOP(NAME, GO, OF) struct NAME { static char const *name() { return #NAME; } template <class L, class A, class Bv> static void go(L l, A a, Bv b) { typedef typename L::value_type T; (void)a; (void)b; GO; } template <class T, class U, class V> static T of(T l, U a, V b) { (void)l; (void)a; (void)b; return OF; } };
SOP(op_sadd, l = T(7) + a, T(7) + a) SOP(op_smul, l = a * T(3), a *T(3)) SOP(op_ssub, l = T(11) - a * T(2) + b, T(11) - a * T(2) + b) SOP(op_fill, l = T(5), T(5)) SOP(op_sinc, l += T(9), l + T(9))
OP(op_max, l = max(a, b), std::max(a, b)) OP(op_min, l = min(a, b), std::min(a, b)) OP(op_mag, l = mag(a - b), a > b ? a - b : b - a) OP(op_ite, l = ite(a < b, a, b), a < b ? a : b) OP(op_ite2, l = ite(lor(a == b, a > b), a - b, b), a >= b ? a - b : b)
OP(op_conj, l = conj(a) * b, conj(a) * b) OP(op_jmul, l = jmul(a, b), a * conj(b))
// types differ
OP(op_gt, l = a > b, a > b) OP(op_magsq, l = magsq(a) + magsq(b), std::norm(a) + std::norm(b)) OP(op_real, l = real(a) - imag(b), a.real() - b.imag()) OP(op_cmplx, l = cmplx(a, b), (T(a, b))) OP(op_plus, l = a + b, T(a) + T(b)) OP(op_times, l = a * b, T(a) * T(b))

template <class F, class SL, class SA, class SB> void zip(pbt::Gen &g, SL &l, SA &a, SB &b, size_t const *m)
{
  int const D = SL::dim; size_t total = m[0] * m[1] * m[2]; g.note() << F::name() << "; "; auto vl = l.view(); auto va = a.view(); auto vb = b.view();
  int times = 1 + g.draw(2); for (int k = 0; k < times; ++k) { if (k) { a.w.fill(g.range(100, 900)); }
    F::go(vl, va, vb); for (size_t i = 0; i < total; ++i) { Ix<D> x = unlinear<D>(i, m); acc<SL>::put(l, l.pos(x), F::of(acc<SL>::get(l, l.pos(x)), acc<SA>::get(a, a.pos(x)), acc<SB>::get(b, b.pos(x)))); }
    l.w.check(g, "destination"); a.w.check(g, "first operand"); b.w.check(g, "second operand"); }
  if (num_processors() > 1 && total > 1) g.nontrivial(); g.label(F::name());
}
template <class SL, class SA, class SB> struct Zip
{
  static int const D = SL::dim; size_t m[3] = {1, 1, 1}; struct Shape { Shape(pbt::Gen &g, size_t *m) { shape<SL::dim>(g, m); for (int i = 0; i < SL::dim; ++i) g.note() << m[i] << ' '; g.note() << ": "; } } s; SL l; SA a; SB b;
  Zip(pbt::Gen &g) : s(g, m), l(g, m), a(g, m), b(g, m) { l.w.fill(g.range(1, 300)); a.w.fill(g.range(1, 300)); b.w.fill(g.range(1, 300)); }
};
inline void choose(pbt::Gen &, int, int) {}
template <class... Fs> struct ops;
template <class F, class... Fs> struct ops<F, Fs...> { template <class Z> static void go(pbt::Gen &g, Z &z, int i) { if (i == 0) zip<F>(g, z.l, z.a, z.b, z.m); else ops<Fs...>::go(g, z, i - 1); } static int const n = 1 + sizeof...(Fs); };
template <> struct ops<> { template <class Z> static void go(pbt::Gen &, Z &, int) {} };
template <class Os, class SL, class SA, class SB> void zipped(pbt::Gen &g) { Zip<SL, SA, SB> z(g); Os::go(g, z, g.draw(Os::n)); }
typedef ops<op_neg, op_add, op_sub, op_mul, op_addto, op_subfrom, op_timesto, op_nest, op_ma, op_self, op_self2, op_sadd, op_ssub, op_fill, op_sinc> basic;
typedef ops<op_am, op_msb, op_smul, op_max, op_min, op_mag, op_ite, op_ite2> more;
typedef ops<op_add, op_mul, op_nest, op_subfrom, op_conj, op_jmul, op_smul, op_fill> cplx;
#endif

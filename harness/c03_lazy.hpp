// Parts of an expression that are not evaluated element by element (transforms returned by value, freqswap, vmmul, ramp):
// inside larger expressions, under every assignment operator, in reductions, more than once.
#include "c07_fft.hpp"
#include <vsip/selgen.hpp>
namespace
{
template <class T> Vector<T> mk_(Arr<T> const &a, std::integral_constant<int, 1>) { Vector<T> v(a.n[0]); for (size_t i = 0; i < a.n[0]; ++i) v.put(i, a.v[i]); return v; }
template <class T> Matrix<T> mk_(Arr<T> const &a, std::integral_constant<int, 2>) { Matrix<T> v(a.n[0], a.n[1]); size_t k = 0; for (size_t i = 0; i < a.n[0]; ++i) for (size_t j = 0; j < a.n[1]; ++j) v.put(i, j, a.v[k++]); return v; }
template <class T> Tensor<T> mk_(Arr<T> const &a, std::integral_constant<int, 3>) { Tensor<T> v(a.n[0], a.n[1], a.n[2]); size_t m = 0; for (size_t i = 0; i < a.n[0]; ++i) for (size_t j = 0; j < a.n[1]; ++j) for (size_t k = 0; k < a.n[2]; ++k) v.put(i, j, k, a.v[m++]); return v; }
template <int D, class T, int MO, class F1, class F2> void lazy(pbt::Gen &g, size_t const *n, F1 const &f1, F2 const &f2)
{
  size_t N = n[0] * n[1] * n[2]; auto ar = [&] { return data<T>(g.dataseed(), pbt::signed_int, n[0], n[1], n[2]); };
  Arr<T> X = ar(), Y = ar(), B = ar(), O = ar(); int form = g.draw(11), op = g.draw(2);
  typedef typename plain<D, T>::type P;
  with_<D>::template go<T, MO>(g, n, [&](auto &o) {
    o.set(O); std::integral_constant<int, D> dim; P x = mk_(X, dim), y = mk_(Y, dim), b = mk_(B, dim); g.note() << "to " << o.kind << ", form " << form << ", op " << op;
    P fx(f1(x)), fy(f2(y)); Arr<T> p = read(fx), q = read(fy), want = O; L norm = 1;
    for (size_t i = 0; i < N; ++i) norm = std::max(norm, std::max(std::abs(LC(p.v[i])), std::abs(LC(q.v[i])))); L tol = 1e-4L * norm * 30;
    auto fin = [&](auto const &e, auto val) {
      for (size_t i = 0; i < N; ++i) { LC v = val(i), z = LC(O.v[i]); v = op == 0 ? v : z + v; want.v[i] = T(v); }
      if (op) o.view += e; else o.view = e;
      o.holds(g, want, "the result", Close{tol});
    };
    auto at = [](Arr<T> const &a, size_t i) { return LC(a.v[i]); };
    switch (form)
    {
    case 0: fin(f1(x), [&](size_t i) { return at(p, i); }); break;
    case 1: fin(f1(x) * b + f2(y), [&](size_t i) { return at(p, i) * at(B, i) + at(q, i); }); break;
    case 2: fin(b - f1(x), [&](size_t i) { return at(B, i) - at(p, i); }); break;
    case 3: fin(f1(x) - f2(y), [&](size_t i) { return at(p, i) - at(q, i); }); break;
    case 4: fin(ma(f1(x), b, f2(y)), [&](size_t i) { return at(p, i) * at(B, i) + at(q, i); }); break;
    case 5: fin(-f2(y) * T(2), [&](size_t i) { return -at(q, i) * LC(2); }); break;
    case 6: fin(f1(x) + x, [&](size_t i) { return at(p, i) + at(X, i); }); break;
    case 9: { P fo(f1(mk_(O, dim))); Arr<T> r = read(fo); L t = tol; for (auto v : r.v) t = std::max(t, std::abs(LC(v)) * 30e-4L); o.view = f1(o.view) * b + o.view; for (size_t i = 0; i < N; ++i) want.v[i] = T(at(r, i) * at(B, i) + at(O, i)); o.holds(g, want, "an expression of the destination", Close{t}); break; }
    case 7: { auto e = f1(x) + b; P r(e); result(g, r, [&] { Arr<T> w = p; for (size_t i = 0; i < N; ++i) w.v[i] += B.v[i]; return w; }(), tol, 1, "the expression, first"); fin(e, [&](size_t i) { return at(p, i) + at(B, i); }); break; }
    case 8: { LC s = 0; for (size_t i = 0; i < N; ++i) s += at(p, i) * at(B, i); LC t = LC(sumval(f1(x) * b)); REQUIRE(g, std::abs(t - s) <= tol * N, "the sum is " << T(t) << ", not " << T(s)); fin(f2(y), [&](size_t i) { return at(q, i); }); break; }
    default: { L m = 0; for (size_t i = 0; i < N; ++i) m = std::max(m, (L)std::norm(at(p, i) + at(q, i))); Index<D> ix; L t = maxmgsqval(f1(x) + f2(y), ix); REQUIRE(g, std::abs(t - m) <= tol * norm * 8, "the largest square is " << t << ", not " << m); o.holds(g, O, "a view that was not assigned to"); break; }
    }
    result(g, x, X, 0, 1, "the first operand"); result(g, y, Y, 0, 1, "the second operand"); result(g, b, B, 0, 1, "the third operand"); if (N > 1) g.nontrivial();
  });
}

template <class T, int MO> void lazy1(pbt::Gen &g)
{
  size_t n[3] = {1 + g.draw(40), 1, 1}; Domain<1> d(n[0]); int k = g.draw(3); typedef typename is_cplx<T>::real R; R s = R(0.5);
  typedef Fft<const_Vector, T, T, fft_fwd, by_value, 4> F; typedef Fft<const_Vector, T, T, fft_inv, by_value, 4> I;
  F f(d, s); I i(d, 1); auto ff = [&](auto const &v) { return f(v); }; auto fi = [&](auto const &v) { return i(v); }; auto sw = [](auto const &v) { return freqswap(v); };
  if (k == 0) lazy<1, T, MO>(g, n, ff, fi); else if (k == 1) lazy<1, T, MO>(g, n, sw, ff); else lazy<1, T, MO>(g, n, fi, sw);
}
template <class T, int MO> void lazy2(pbt::Gen &g)
{
  size_t n[3] = {1 + g.draw(9), 1 + g.draw(9), 1}; Domain<2> d(n[0], n[1]); int k = g.draw(3);
  Fftm<T, T, row, fft_fwd, by_value, 4> r(d, 1); Fftm<T, T, col, fft_inv, by_value, 4> c(d, 1); Fft<const_Matrix, T, T, fft_fwd, by_value, 4> f(d, 1);
  Arr<T> w = data<T>(g.dataseed(), pbt::signed_int, n[1]); Vector<T> v = mk_(w, std::integral_constant<int, 1>());
  auto fr = [&](auto const &m) { return r(m); }; auto fc = [&](auto const &m) { return c(m); }; auto f2 = [&](auto const &m) { return f(m); }; auto sw = [](auto const &m) { return freqswap(m); }; auto vm = [&](auto const &m) { return vmmul<row>(v, m); };
  if (k == 0) lazy<2, T, MO>(g, n, fr, fc); else if (k == 1) lazy<2, T, MO>(g, n, sw, vm); else lazy<2, T, MO>(g, n, f2, sw);
}
template <class T, int MO> void lazy3(pbt::Gen &g)
{
  size_t n[3] = {1 + g.draw(5), 1 + g.draw(5), 1 + g.draw(5)}; Domain<3> d(n[0], n[1], n[2]);
  Fft<const_Tensor, T, T, fft_fwd, by_value, 4> f(d, 1); Fft<const_Tensor, T, T, fft_inv, by_value, 4> i(d, 0.25);
  lazy<3, T, MO>(g, n, [&](auto const &m) { return f(m); }, [&](auto const &m) { return i(m); });
}
}

// C27: what views, blocks and signal processing objects allocate goes back where it came from
#include "c27_mem.hpp"
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
#include <vsip/selgen.hpp>
#include <functional>
using namespace c27; typedef complex<float> cf;
namespace
{
struct Thing { virtual ~Thing() {} virtual void use() {} char const *name; };
template <class F> struct Made : Thing { typedef decltype(std::declval<F>()()) T; std::unique_ptr<typename std::remove_pointer<T>::type> t; std::function<void(typename std::remove_pointer<T>::type &)> u; void use() override { if (u) u(*t); } };
typedef Thing *(*Factory)(pbt::Gen &);
template <class F, class U> Thing *made(char const *name, F f, U u) { auto m = std::unique_ptr<Made<F>>(new Made<F>); m->name = name; m->u = u; m->t.reset(f()); return m.release(); }
#define THING(name, make, use) [](pbt::Gen &g) -> Thing * { size_t n = g.range(1, 12), m = g.range(1, 6); (void)n; (void)m; return made(name, [&] { return make; }, [](auto &x) { (void)x; use; }); }
template <dimension_type D, class T, class O, storage_format_type F> using S = ovxx::Strided<D, T, Layout<D, O, dense, F>>;
std::vector<Factory> const &blocks()
{
  static std::vector<Factory> const f = {
    THING("vector", new Vector<float>(n), x = 1.f; x = x + x * 2.f),
    THING("initialized vector", new Vector<double>(n, 3.), x(Domain<1>(0, 1, 1)) = 2.),
    THING("complex vector", new Vector<cf>(n), x = cf(1, 2); x.real() = x.imag() + 1.f),
    THING("matrix", new Matrix<float>(n, m), x = 1.f; x.row(0) = x.row(0) + 1.f),
    THING("column major matrix", (new Matrix<cf, Dense<2, cf, col2_type>>(n, m)), x = cf(1); x.col(0) *= cf(2)),
    THING("tensor", new Tensor<float>(n, m, 3), x = 2.f; x = x * x),
    THING("split vector", (new Vector<cf, S<1, cf, row1_type, split_complex>>(n)), x = cf(1, 2)),
    THING("split matrix", (new Matrix<cf, S<2, cf, col2_type, split_complex>>(n, m)), x = cf(1, 2); x = x * cf(0, 1)),
    THING("interleaved vector", (new Vector<cf, S<1, cf, row1_type, interleaved_complex>>(n)), x.put(0, cf(1, 2))),
    THING("padded matrix", (new Matrix<float, ovxx::Strided<2, float, Layout<2, row2_type, aligned_16, array>>>(n, m)), x = 1.f),
    THING("mapped vector", (new Vector<float, Dense<1, float, row1_type, Map<>>>(n, 0.f, Map<>(num_processors()))), x = 3.f),
    THING("replicated matrix", (new Matrix<float, Dense<2, float, row2_type, Replicated_map<2>>>(n, m)), x = 3.f),
    THING("copy of a view", new auto(Vector<float>(n, 1.f)), x = x + 1.f),
    THING("boolean vector", new Vector<bool>(n), x = true; x = !x),
    THING("index vector", new Vector<Index<2>>(n), x.put(0, Index<2>(1, 2))),
  };
  return f;
}
std::vector<Factory> const &objects()
{
  static std::vector<Factory> const f = {
    THING("Fft", (new Fft<const_Vector, cf, cf, fft_fwd, by_reference, 1>(Domain<1>(n), 1.f)), Vector<cf> a(x.input_size().size(), cf(1)); Vector<cf> b(x.output_size().size()); x(a, b); x(b)),
    THING("Fft by value", (new Fft<const_Vector, float, cf, 0, by_value, 1>(Domain<1>(2 * n), 1.f)), Vector<float> a(x.input_size().size(), 1.f); Vector<cf> b(x.output_size().size()); b = x(a)),
    THING("Fft of a matrix", (new Fft<const_Matrix, cf, cf, fft_inv, by_value, 1>(Domain<2>(n, m), 1.f)), Matrix<cf> a(x.input_size()[0].size(), x.input_size()[1].size(), cf(1)); Matrix<cf> b(a.size(0), a.size(1)); b = x(a)),
    THING("Fftm", (new Fftm<cf, cf, row, fft_fwd, by_value, 1>(Domain<2>(n, m), 1.f)), Matrix<cf> a(x.input_size()[0].size(), x.input_size()[1].size(), cf(1)); Matrix<cf> b(a.size(0), a.size(1)); b = x(a)),
    THING("Convolution", (new Convolution<const_Vector, nonsym, support_full, float>(Vector<float>(m, 1.f), Domain<1>(n + m), 1)), Vector<float> a(x.input_size().size(), 1.f); Vector<float> b(x.output_size().size()); x(a, b)),
    THING("Correlation", (new Correlation<const_Vector, support_full, float>(Domain<1>(m), Domain<1>(n + m))), Vector<float> r(x.reference_size().size(), 1.f); Vector<float> a(x.input_size().size(), 1.f); Vector<float> b(x.output_size().size()); x(unbiased, r, a, b)),
    THING("Fir", (new Fir<float, nonsym, state_save>(Vector<float>(m + 1, 1.f), n + m, 1)), Vector<float> a(x.input_size(), 1.f); Vector<float> b(x.output_size()); x(a, b); auto y = x; y(a, b); y = x),
    THING("Iir", (new Iir<float>(Matrix<float>(2, 3, 1.f), Matrix<float>(2, 2, 0.1f), n)), Vector<float> a(x.input_size(), 1.f); Vector<float> b(x.output_size()); x(a, b)),
    THING("Rand", new Rand<float>(n, m > 3), Vector<float> a(4); a = x.randu(4); Matrix<float> b(2, 2); b = x.randn(2, 2)),
    THING("Histogram", (new Histogram<const_Vector, float>(-1, 1, n + 2)), Vector<float> a(5, 0.f); Vector<scalar_i> b(x(a))),
    THING("lud", (new lud<float, by_reference>(n)), Matrix<float> a(x.length(), x.length(), 0.f); a.diag() = 2.f; x.decompose(a); Matrix<float> b(x.length(), 2, 1.f); Matrix<float> c(x.length(), 2); x.template solve<mat_ntrans>(b, c)),
    THING("chold", (new chold<cf, by_value>(lower, n)), Matrix<cf> a(x.length(), x.length(), cf(0)); a.diag() = cf(2); x.decompose(a); Matrix<cf> b(x.length(), 2, cf(1)); Matrix<cf> c(x.length(), 2); c = x.solve(b)),
    THING("qrd", (new qrd<float, by_value>(n + m, m, qrd_saveq)), Matrix<float> a(x.rows(), x.columns(), 0.f); a.diag() = 2.f; x.decompose(a)),
    THING("svd", (new svd<float, by_value>(n + m, m, svd_uvfull, svd_uvfull)), Matrix<float> a(x.rows(), x.columns(), 0.f); a.diag() = 2.f; Vector<float> s(x.columns()); s = x.decompose(a)),
    THING("products", new Matrix<cf>(n, m, cf(1)), Matrix<cf> y(x.size(0), x.size(0)); y = prodh(x, x); Vector<cf> v(x.size(0)); v = prod(x, x.row(0)); y = prod(x, trans(x)); Matrix<cf> z(x.size(1), x.size(0)); z = herm(x)),
    THING("cumulative sum", new Vector<float>(n, 1.f), Vector<float> y(x.size()); cumsum<0>(x, y); y = freqswap(x)),
    THING("window", new Vector<float>(n + 3), x = blackman(x.size()); Vector<float> w(x.size()); w = hanning(x.size())),
  };
  return f;
}
void life(pbt::Gen &g, std::vector<Factory> const &f)
{
  Default d; Watch a, b, c; Watch *w[3] = {&a, &b, &c}; size_t steps = g.range(1, 14); ovxx::allocator::set_default(&a);
  {
    std::vector<std::unique_ptr<Thing>> live;
    for (size_t t = 0; t < steps; ++t)
    {
      if (g.flip(2, 5)) { ovxx::allocator::set_default(w[g.draw(3)]); g.label("default exchanged"); }
      switch (live.empty() ? 0 : g.draw(3))
      {
      case 0: live.emplace_back(f[g.draw(f.size())](g)); g.note() << live.back()->name << "; "; g.label(live.back()->name); break;
      case 1: { size_t i = g.draw(live.size()); g.note() << "use " << live[i]->name << "; "; size_t before = a.live.size() + b.live.size() + c.live.size(); live[i]->use(); (void)before; break; }
      case 2: { size_t i = g.draw(live.size()); g.note() << "drop " << live[i]->name << "; "; live.erase(live.begin() + i); break; }
      }
      for (auto *x : w) REQUIRE(g, x->error.empty(), x->error);
    }
    if (steps > 4) g.nontrivial();
  }
  for (auto *x : w) { REQUIRE(g, x->error.empty(), x->error); REQUIRE(g, x->live.empty(), x->live.size() << " pieces of memory are never released"); }
}
// the allocator runs out of memory while something is made
void fails(pbt::Gen &g, std::vector<Factory> const &f)
{
  Default d; Watch a; ovxx::allocator::set_default(&a); a.fail_at = g.draw(6); size_t k = g.draw(f.size()); bool threw = false; long at = a.fail_at; std::unique_ptr<Thing> t; g.note() << "allocation " << at << " fails; ";
  try { t.reset(f[k](g)); } catch (std::bad_alloc &) { threw = true; }
  bool met = a.fail_at < 0; a.fail_at = -1; ovxx::allocator::set_default(d.before); if (t) { g.note() << t->name; g.label(t->name); }
  REQUIRE(g, met == threw, (met ? "no std::bad_alloc for the failure" : "std::bad_alloc without a failure")); if (threw) { g.nontrivial(); g.label("out of memory"); }
  if (t) { t->use(); t.reset(); }
  REQUIRE(g, a.error.empty(), a.error); REQUIRE(g, a.live.empty(), a.live.size() << " pieces of memory are lost");
}
}
// objects whose construction assigns to views are left out: assignment does not throw, by the specification
static std::vector<Factory> constructed() { std::vector<Factory> f; size_t const k[] = {0, 1, 2, 3, 8, 10, 11, 12, 13}; for (size_t i : k) f.push_back(objects()[i]); return f; }
PROP(blocks_life, 1200, 20000) { life(g, blocks()); }
PROP(objects_life, 600, 8000) { life(g, objects()); }
PROP(blocks_out_of_memory, 1200, 10000) { fails(g, blocks()); }
PROP(objects_out_of_memory, 600, 6000) { static std::vector<Factory> const f = constructed(); fails(g, f); }

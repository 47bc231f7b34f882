// C28 the library comes and goes: objects nested in any order, in several threads, with MPI owned by the library or by the application
#ifndef C28_LIFE
#define C28_LIFE
#include "c28_comm.hpp"
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include <vsip/selgen.hpp>
#include <functional>
#include <thread>
// work that needs all of the library's global state: allocator, communicator, attached buffer, transforms
inline void use(pbt::Gen &g, int kind, unsigned long seed, bool messages)
{
  length_type n = 1 + seed % 40;
  switch (kind % 6)
  {
    case 0: { Vector<int> v(n); v = ramp<int>(1, 1, n); Vector<int> w(n); w = v * v; long s = 0; for (length_type i = 1; i <= n; ++i) s += i * i; REQUIRE(g, sumval(w) == s, "the sum of squares of 1.." << n << " is " << sumval(w)); break; }
    case 1: { Comm &c = par::default_communicator(); REQUIRE(g, (int)num_processors() == world_size() && (int)local_processor() == world_rank() && (int)c.size() == world_size() && (int)local_processor_index() == world_rank(), "process " << local_processor() << " of " << num_processors() << " instead of " << world_rank() << " of " << world_size()); REQUIRE(g, (int)processor_set().size() == world_size(), "processor_set() has " << processor_set().size() << " entries"); if (messages) { int s = c.allreduce(ovxx::reduce_sum, int(seed % 100) + world_rank()), e = world_size() * int(seed % 100) + world_size() * (world_size() - 1) / 2; REQUIRE(g, s == e, "a sum over all processes is " << s << ", not " << e); } break; }
    case 2: if (messages) { Comm c = par::default_communicator(); int p = world_rank(), k = world_size(), to = (p + seed) % k, from = (p + k - seed % k) % k; length_type len = 1 + seed % 5000; std::vector<double> a(len, p + 0.5), b(len); a[len - 1] = seed; c.buf_send(to, a.data(), len); std::fill(a.begin(), a.end(), -1); c.recv(from, b.data(), len); bool ok = b[len - 1] == seed && (len == 1 || b[0] == from + 0.5); REQUIRE(g, ok, "a buffered message of " << len << " values from " << from << " came as " << b[0] << "..." << b[len - 1]); } break;
    case 3: { Vector<complex<float>> a(8), b(8); a = complex<float>(0); a.put(seed % 8, complex<float>(1)); Fft<const_Vector, complex<float>, complex<float>, fft_fwd, by_reference, 1> f(8, 1.0); f(a, b); for (int i = 0; i < 8; ++i) { float r = std::cos(2 * 3.14159265f * i * (seed % 8) / 8) - b.get(i).real(); REQUIRE(g, r < 1e-5 && r > -1e-5, "the transform of a unit vector is wrong by " << r); } break; }
    case 4: { typedef Map<Block_dist> M; Vector<int, Dense<1, int, row1_type, M>> v(n, M(messages ? num_processors() : 1)); if (!messages) break; v = ramp<int>(2, 3, n); int s = sumval(v), e = 2 * n + 3 * n * (n - 1) / 2; REQUIRE(g, s == e, "the sum of a distributed view is " << s << ", not " << e); int x = v.get(seed % n); REQUIRE(g, x == int(2 + 3 * (seed % n)), "an element of a distributed view is " << x); break; }
    default: { Matrix<double> m(n, 3), t(3, n); m = 1.5; t = m.transpose(); double s = sumval(t); REQUIRE(g, s == 4.5 * n, "the sum of a transposed matrix is " << s); }
  }
}
struct Lib { std::unique_ptr<vsipl> l; static vsipl *make(int how) { if (how == 0) return new vsipl; static char name[] = "prog", opt[] = "--opt"; static char *args[] = {name, opt, 0}; int argc = 2; char **argv = args; return new vsipl(argc, argv); } };
// a history of library objects in this thread (base: objects that exist besides), others in threads of their own, joined before the history goes on
inline int history(pbt::Gen &g, int base, bool messages, bool threads, int least, std::function<void(int)> const &at_zero)
{
  std::vector<std::unique_ptr<vsipl>> live; int steps = least + g.draw(12), most = 0, cycles = 0; for (int s = 0; s < steps; ++s)
  {
    int k = g.draw(threads ? 9 : 7); unsigned long seed = g.dataseed(); int kind = g.draw(6), how = g.draw(2); bool usable = base + live.size() > 0;
    if (k < 3) { live.emplace_back(Lib::make(how)); most = std::max<int>(most, base + live.size()); g.note() << "create, "; }
    else if (k < 5) { if (live.empty()) continue; size_t i = g.draw(live.size()); g.note() << "destroy " << i << " of " << live.size() << ", "; live.erase(live.begin() + i); if (base + live.size() == 0) { ++cycles; at_zero(cycles); if (cycles && base == 0) g.label("all gone"); } }
    else if (k < 7) { if (usable) { g.note() << "use " << kind << ", "; use(g, kind, seed, messages); } }
    else { int n = 1 + g.draw(3); g.note() << "thread with " << n << " objects, "; bool own = !usable; std::thread t([&]() { std::vector<std::unique_ptr<vsipl>> mine; for (int i = 0; i < n; ++i) mine.emplace_back(Lib::make(how)); use(g, kind, seed, messages); mine.erase(mine.begin() + seed % mine.size()); if (!mine.empty()) use(g, kind + 1, seed, messages); mine.clear(); }); t.join(); if (own) at_zero(++cycles); g.label("thread"); }
    if (base + live.size() > 0) use(g, s, seed, messages);
  }
  while (!live.empty()) { live.erase(live.begin() + g.draw(live.size())); if (base + live.size() == 0) at_zero(++cycles); else use(g, live.size(), steps, messages); }
  if (most > 1 || cycles > 1) g.nontrivial(); return cycles;
}
#endif

// C29: threads create, use and destroy library objects in drawn interleavings; MPI lives exactly as long as any of them does
#include "c28_life.hpp"
#include <vsip/random.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
namespace c29
{
// work on the calling thread's own data that does not communicate
inline void job(pbt::Gen &g, int kind, unsigned long seed)
{
  int const local[] = {0, 3, 5, 6}; kind = local[kind % 4];
  if (kind == 6) { REQUIRE(g, num_processors() == 1 && local_processor() == 0, "process " << local_processor() << " of " << num_processors()); Vector<double> a(1 + seed % 50, 1.5); Rand<double> r(1 + seed % 1000); a *= 2; a += 0 * r.randu(a.size()); REQUIRE(g, sumval(a) == 3 * double(a.size()), "a sum is " << sumval(a)); }
  else use(g, kind, seed, false);
}
}
PROP(threads_start_and_end, 40, 1500)
{
  uint64_t seed = g.dataseed(); int threads = 2 + g.draw(7), rounds = 1 + g.draw(6); bool base = g.flip(); int fd[2]; if (pipe(fd)) g.fail("pipe"); fflush(0); pid_t pid = fork();
  if (!pid)
  {
    alarm(100); close(fd[0]); std::string m = "ok"; std::vector<pbt::Gen> h(threads + 1); for (int t = 0; t <= threads; ++t) { h[t].state = seed * 77777 + t * 131; h[t].soft = true; }
    // without an object of the main thread, the threads' first objects are created at the same time and the last ones go together
    std::unique_ptr<vsipl> mine(base ? Lib::make(0) : 0); std::atomic<int> ready(0), made(0), over(0), finalized(0); std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t]() {
      pbt::Gen &g = h[t]; ++ready; while (ready < threads) std::this_thread::yield();
      // without one of the main thread, the object each thread holds on to is, in one round, the only one of its thread
      std::unique_ptr<vsipl> keep; if (!base) { keep.reset(Lib::make(0)); ++made; c29::job(g, g.draw(4), 7); while (made < threads) std::this_thread::yield(); }
      for (int r = 0; r < rounds; ++r)
      {
        std::vector<std::unique_ptr<vsipl>> live; int n = 1 + g.draw(3); for (int i = 0; i < n; ++i) live.emplace_back(Lib::make(g.draw(2)));
        int steps = g.draw(6); for (int s = 0; s < steps; ++s) { int k = g.draw(4); unsigned long d = g.dataseed(); if (k == 0) live.emplace_back(Lib::make(0)); else if (k == 1 && live.size() > 1) live.erase(live.begin() + d % live.size()); c29::job(g, g.draw(4), d); }
        int f = 0; MPI_Finalized(&f); finalized += f; live.clear(); if (keep) c29::job(g, r, r);
      }
      if (!base) { ++over; while (over < threads) std::this_thread::yield(); keep.reset(); } });
    for (auto &t : th) t.join(); for (auto &g : h) if (g.failed) m = g.fail_msg; if (finalized) m = "MPI was finalized while library objects exist"; int f = 0; MPI_Finalized(&f); if (base) { if (f) m = "MPI was finalized by the threads"; else { try { c29::job(h[threads], 0, seed); c29::job(h[threads], 3, seed); } catch (std::exception const &e) { m = e.what(); } if (h[threads].failed) m = h[threads].fail_msg; mine.reset(); MPI_Finalized(&f); } } if (m == "ok" && !f) m = "MPI was not finalized with the last library object";
    if (write(fd[1], m.data(), m.size())) {} _exit(0);
  }
  close(fd[1]); std::string m; char buf[512]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, k); close(fd[0]); int st = 0; waitpid(pid, &st, 0); g.nontrivial(); g.label(base ? "main thread has an object" : "threads start the library"); g.note() << threads << " threads, " << rounds << " rounds" << (base ? ", main thread has an object" : ""); REQUIRE(g, m == "ok", (m.empty() ? "the process ended early, status " + std::to_string(st) : m) << " (seed " << seed << ")"); REQUIRE(g, WIFEXITED(st) && WEXITSTATUS(st) == 0, "status " << st);
}

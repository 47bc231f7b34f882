// C28 MPI belongs to the library: started by the first object, finalized with the last
#include "c28_life.hpp"
#include <sys/wait.h>
#include <unistd.h>
PROP(owner, 12, 300)
{
  uint64_t seed = g.dataseed(); int steps = 2 + g.draw(10); bool threads = g.flip(); int fd[2]; if (pipe(fd)) g.fail("pipe"); fflush(0); pid_t pid = fork();
  if (!pid)
  {
    alarm(60); close(fd[0]); pbt::Gen h; h.state = seed * 77777; h.soft = true; int started = 0; MPI_Initialized(&started); REQUIRE(h, !started, "MPI runs before the library is used"); int fin = 0;
    { std::vector<std::unique_ptr<vsipl>> live; live.emplace_back(Lib::make(h.draw(2))); MPI_Initialized(&started); REQUIRE(h, started, "the library did not start MPI"); 
      for (int s = 0; s < steps; ++s) { int k = h.draw(threads ? 6 : 5); if (k < 2) live.emplace_back(Lib::make(h.draw(2))); else if (k == 2) { if (live.size() > 1) live.erase(live.begin() + h.draw(live.size())); } else if (k < 5) use(h, h.draw(6), h.draw(1000), true); else { std::thread t([&]() { vsipl l; use(h, h.draw(6), h.draw(1000), true); }); t.join(); } MPI_Finalized(&fin); REQUIRE(h, !fin, "MPI was finalized while " << live.size() << " library objects exist"); if (fin) break; use(h, s, s, true); }
      while (live.size() > 1 && !fin) { live.erase(live.begin() + h.draw(live.size())); use(h, live.size(), 3, true); MPI_Finalized(&fin); REQUIRE(h, !fin, "MPI was finalized while " << live.size() << " library objects exist"); } live.clear(); MPI_Finalized(&fin); REQUIRE(h, fin, "MPI was not finalized with the last library object"); }
    std::string m = h.failed ? h.fail_msg : "ok"; if (write(fd[1], m.data(), m.size())) {} _exit(0);
  }
  close(fd[1]); std::string m; char buf[512]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, k); close(fd[0]); int st = 0; waitpid(pid, &st, 0); if (steps > 2) g.nontrivial(); if (threads) g.label("thread"); g.note() << steps << " steps" << (threads ? " with threads" : ""); REQUIRE(g, m == "ok", (m.empty() ? "the process ended early, status " + std::to_string(st) : m) << " (seed " << seed << ")"); REQUIRE(g, WIFEXITED(st) && WEXITSTATUS(st) == 0, "status " << st);
}

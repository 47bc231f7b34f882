// C28 MPI belongs to the application: the library comes and goes, MPI stays
#include "c28_life.hpp"
PROP(guest, 120, 5000)
{
  g.soft = true; history(g, 0, true, true, 2, [&](int) {
    int fin = 0; MPI_Finalized(&fin); REQUIRE(g, !fin, "the library has finalized the application's MPI"); if (fin) return;
    // what the application does with MPI in the meantime, a buffer of its own included
    std::vector<char> mine(70000); int e = MPI_Buffer_attach(mine.data(), mine.size()); REQUIRE(g, e == MPI_SUCCESS, "the application cannot attach a buffer after the library has gone"); if (e != MPI_SUCCESS) return; int to = (world_rank() + 1) % world_size(), from = (world_rank() + world_size() - 1) % world_size(); std::vector<int> a(3000, world_rank()), b(3000); MPI_Bsend(a.data(), 3000, MPI_INT, to, 5, MPI_COMM_WORLD); MPI_Recv(b.data(), 3000, MPI_INT, from, 5, MPI_COMM_WORLD, MPI_STATUS_IGNORE); REQUIRE(g, b[0] == from && b[2999] == from, "the application's own message"); void *p; int n; MPI_Buffer_detach(&p, &n); REQUIRE(g, p == mine.data() && n == (int)mine.size(), "another buffer was attached"); });
  MPI_Barrier(MPI_COMM_WORLD);
}

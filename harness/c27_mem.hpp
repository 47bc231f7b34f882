// C27: allocators that are watched
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/aligned_allocator.hpp>
#include <ovxx/aligned_array.hpp>
#include "pbt.hpp"
#include <map>
#include <memory>
using namespace vsip;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace c27
{
// knows what is live; may be told to fail
struct Watch : ovxx::allocator
{
  std::map<char *, size_t> live; size_t count; long fail_at; std::string error;
  Watch() : count(0), fail_at(-1) {}
  ~Watch() { for (auto &p : live) free(p.first); }
  void *allocate(size_t n) override { if (fail_at >= 0 && long(count) >= fail_at) { fail_at = -1; throw std::bad_alloc(); } ++count; void *p; if (posix_memalign(&p, 64, n ? n : 1)) throw std::bad_alloc(); memset(p, 0x5a, n); live[(char *)p] = n; return p; }
  void deallocate(void *p, size_t n) override
  {
    if (!p) return; auto i = live.find((char *)p); if (i == live.end()) { error = "memory released to an allocator it did not come from, or twice"; return; }
    if (i->second != n) error = "memory of " + std::to_string(i->second) + " bytes is released as " + std::to_string(n) + " bytes";
    memset(p, 0xa5, i->second); live.erase(i); free(p);
  }
};
struct Default { ovxx::allocator *before; Default() : before(ovxx::allocator::get_default()) { processor_set(); } ~Default() { ovxx::allocator::set_default(before); } };
}

// C28 communicators, groups, messages and the life of the library
#ifndef C28_COMM
#define C28_COMM
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/complex.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <ovxx/parallel/service.hpp>
#include <ovxx/parallel/util.hpp>
#include <algorithm>
#include <list>
#include <memory>
#include <sstream>
#include <vector>
#include "pbt.hpp"
using namespace vsip;
namespace par = ovxx::parallel;
typedef par::Communicator Comm;
typedef par::Group Group;
typedef std::vector<int> Ranks;                 // ranks in the world
inline int world_rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int world_size() { int s; MPI_Comm_size(MPI_COMM_WORLD, &s); return s; }
inline int position(Ranks const &m, int r) { for (size_t i = 0; i < m.size(); ++i) if (m[i] == r) return i; return -1; }
inline std::string show(Ranks const &m) { std::ostringstream o; o << '{'; for (size_t i = 0; i < m.size(); ++i) o << (i ? " " : "") << m[i]; o << '}'; return o.str(); }
// k distinct positions below n, in any order
inline Ranks distinct(pbt::Gen &g, int n, int k, bool sorted = false)
{
  Ranks a(n); for (int i = 0; i < n; ++i) a[i] = i; for (int i = 0; i < k; ++i) std::swap(a[i], a[i + g.draw(n - i)]); a.resize(k); if (sorted) std::sort(a.begin(), a.end()); return a;
}
// the ranks in the world of the members of a group, by MPI itself
inline Ranks members(MPI_Group x)
{
  MPI_Group w; MPI_Comm_group(MPI_COMM_WORLD, &w); int n; MPI_Group_size(x, &n); Ranks i(n), o(n); for (int k = 0; k < n; ++k) i[k] = k; if (n) MPI_Group_translate_ranks(x, n, i.data(), w, o.data()); MPI_Group_free(&w); return o;
}
// a value of type T that depends on all of its bytes
inline uint64_t mixed(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
template <class T> struct datum { static T of(uint64_t s) { return T(mixed(s)); } };
template <> struct datum<bool> { static bool of(uint64_t s) { return mixed(s) & 1; } };
template <> struct datum<float> { static float of(uint64_t s) { return float(int(mixed(s) % 2000001) - 1000000) / 8; } };
template <> struct datum<double> { static double of(uint64_t s) { return double(int64_t(mixed(s) >> 12)) / 1024; } };
template <> struct datum<long double> { static long double of(uint64_t s) { return (long double)(int64_t(mixed(s))) / 1024; } };
template <class T> struct datum<complex<T>> { static complex<T> of(uint64_t s) { return complex<T>(datum<T>::of(2 * s), datum<T>::of(2 * s + 1)); } };
template <dimension_type D> struct datum<Index<D>> { static Index<D> of(uint64_t s) { Index<D> i; for (int d = 0; d < (int)D; ++d) i[d] = mixed(s * 3 + d); return i; } };
template <class F> struct each_type;
// calls f.template go<T>(...) for the k-th type
int const ntypes = 18;
template <class F> void with_type(int k, F &f)
{
  switch (k)
  {
    case 0: f.template go<char>(); break; case 1: f.template go<signed char>(); break; case 2: f.template go<unsigned char>(); break; case 3: f.template go<short>(); break;
    case 4: f.template go<unsigned short>(); break; case 5: f.template go<int>(); break; case 6: f.template go<unsigned int>(); break; case 7: f.template go<long>(); break;
    case 8: f.template go<unsigned long>(); break; case 9: f.template go<float>(); break; case 10: f.template go<double>(); break; case 11: f.template go<long double>(); break;
    case 12: f.template go<complex<float>>(); break; case 13: f.template go<complex<double>>(); break; case 14: f.template go<bool>(); break;
    case 15: f.template go<Index<1>>(); break; case 16: f.template go<Index<2>>(); break; default: f.template go<Index<3>>(); break;
  }
}
inline char const *type_name(int k) { static char const *n[] = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double", "long double", "complex<float>", "complex<double>", "bool", "Index<1>", "Index<2>", "Index<3>"}; return n[k]; }
template <class T> bool same(T const &a, T const &b) { return a == b; }
#endif

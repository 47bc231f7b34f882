// C28 broadcast and reductions
#include "c28_comm.hpp"
struct Bcast { pbt::Gen &g; Comm &c; int root, len; unsigned long seed; char const *name;
  template <class T> void go()
  {
    int me = c.rank(); T *a = new T[len]; for (int i = 0; i < len; ++i) a[i] = datum<T>::of(me == root ? seed + i : 31 + i + me); c.broadcast(root, a, len); for (int i = 0; i < len; ++i) { bool ok = a[i] == datum<T>::of(seed + i); REQUIRE(g, ok, "broadcast of " << len << ' ' << name << " from " << root << ": element " << i << " is wrong on " << me); if (!ok) break; } delete[] a; } };
PROP(broadcasts, 400, 15000)
{
  g.soft = true; int w = world_size(); Comm c = par::default_communicator(); if (w > 1 && g.flip(1, 3)) { std::vector<int> colour(w); for (int i = 0; i < w; ++i) colour[i] = g.draw(2); int key = g.flip() ? -world_rank() : world_rank(); c = c.split(colour[world_rank()], key); g.label("subgroup"); } int root = g.draw(w) % c.size(), type = g.draw(ntypes), len = g.flip(1, 10) ? 0 : (int)g.len(1, g.flip(1, 8) ? 20000 : 600); Bcast x{g, c, root, len, g.dataseed(), type_name(type)}; g.note() << len << ' ' << type_name(type) << " from " << root; with_type(type, x); if (w > 1 && len) g.nontrivial();
}
template <class T, int K = std::is_same<T, bool>::value ? 2 : std::is_integral<T>::value ? 0 : std::is_floating_point<T>::value ? 1 : 3> struct model;
template <class T> struct model<T, 0> { static bool ok(int) { return true; } static T of(int op, std::vector<T> const &v) { T r = v[0]; if (op == 0 || op == 1) r = r != 0; for (size_t i = 1; i < v.size(); ++i) switch (op) { case 0: r = r && v[i]; break; case 1: r = r || v[i]; break; case 2: r = T((unsigned long)r + (unsigned long)v[i]); break; case 3: r = std::min(r, v[i]); break; case 4: r = std::max(r, v[i]); break; case 5: r = r & v[i]; break; default: r = r | v[i]; } return r; }
  static T value(pbt::Gen &g, int op, unsigned long s, int n) { (void)g; if (op < 2) return T(mixed(s) % 3 == 0); if (op == 2) return T(mixed(s) % 127 / n); return datum<T>::of(s); } };
template <class T> struct model<T, 1> { static bool ok(int op) { return op >= 2 && op <= 4; } static T of(int op, std::vector<T> const &v) { T r = v[0]; for (size_t i = 1; i < v.size(); ++i) r = op == 2 ? r + v[i] : op == 3 ? std::min(r, v[i]) : std::max(r, v[i]); return r; } static T value(pbt::Gen &, int op, unsigned long s, int) { return op == 2 ? T(int(mixed(s) % 4001) - 2000) / 4 : datum<T>::of(s); } };
template <class T> struct model<T, 2> { static bool ok(int op) { return op >= 5; } static T of(int op, std::vector<T> const &v) { bool r = v[0]; for (size_t i = 1; i < v.size(); ++i) r = op == 5 ? r && v[i] : r || v[i]; return r; } static T value(pbt::Gen &, int op, unsigned long s, int n) { return op == 5 ? mixed(s) % (n + 1) != 0 : mixed(s) % (n + 1) == 0; } };
template <class T> struct model<T, 3> { static bool ok(int) { return false; } static T of(int, std::vector<T> const &v) { return v[0]; } static T value(pbt::Gen &, int, unsigned long s, int) { return datum<T>::of(s); } };
template <class T> struct model<complex<T>, 3> { static bool ok(int) { return false; } static complex<T> of(int, std::vector<complex<T>> const &v) { return v[0]; } static complex<T> value(pbt::Gen &, int, unsigned long s, int) { return datum<complex<T>>::of(s); } };
static ovxx::reduction_type const ops[] = {ovxx::reduce_all_true, ovxx::reduce_any_true, ovxx::reduce_sum, ovxx::reduce_min, ovxx::reduce_max, ovxx::reduce_all_true_bool, ovxx::reduce_any_true_bool};
static char const *const op_names[] = {"all true", "any true", "sum", "min", "max", "all true (bits)", "any true (bits)"};
struct Reduce { pbt::Gen &g; Comm &c; int op; unsigned long seed; int type; bool done;
  template <class T> void go()
  {
    if (!model<T>::ok(op)) return; done = true; int n = c.size(), me = c.rank(); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(model<T>::value(g, op, seed + i * 7, n)); T mine = v[me], r = c.allreduce(ops[op], mine), e = model<T>::of(op, v); REQUIRE(g, r == e, op_names[op] << " of " << n << ' ' << type_name(type) << " is " << +r << ", not " << +e); }
};
template <> void Reduce::go<complex<float>>() {} template <> void Reduce::go<complex<double>>() {} template <> void Reduce::go<Index<1>>() {} template <> void Reduce::go<Index<2>>() {} template <> void Reduce::go<Index<3>>() {}
PROP(reductions, 600, 25000)
{
  g.soft = true; int w = world_size(); Comm c = par::default_communicator(); if (w > 1 && g.flip(1, 3)) { std::vector<int> colour(w); for (int i = 0; i < w; ++i) colour[i] = g.draw(2); c = c.split(colour[world_rank()]); g.label("subgroup"); } Reduce x{g, c, (int)g.draw(7), g.dataseed(), (int)g.draw(15), false}; g.note() << op_names[x.op] << " of " << type_name(x.type); with_type(x.type, x); if (w > 1 && x.done) g.nontrivial();
}

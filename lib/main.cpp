// The driver of a harness binary: runs the registered properties.
//
//   BIN --list
//   BIN --run --seed S --tier quick|thorough --shard i --nshards n --progress FILE --out FILE [--prop P] [--scale x]
//   BIN --replay FILE [--allow-known] --out FILE
//   BIN --shrink FILE ...                  (soft failures: in process)
//
// Exit: 0 held, 1 a property failed (see --out), anything else: crash (see --progress).
#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#ifdef PBT_MPI
#include <mpi.h>
#endif
#ifndef PBT_NO_VSIP
#include <vsip/initfin.hpp>
#endif

namespace pbt
{
std::vector<PropInfo> &props() { static std::vector<PropInfo> p; return p; }
}
using namespace pbt;

static int rank_ = 0, nranks_ = 1;

static bool any_rank(bool f)
{
#ifdef PBT_MPI
  int a = f, b = 0;
  MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return b;
#else
  return f;
#endif
}

// progress file: prop index, case, n, choices
struct Progress { uint64_t prop, idx, n, done; uint64_t c[65536 - 4]; };
static Progress *progress = 0;
// The notes of a case under replay, kept up to date so that they survive a crash.
static std::string notes_file;
static Gen *noting = 0;
static void save_notes()
{
  if (notes_file.empty() || !noting) return;
  std::ofstream w(notes_file); w << noting->notes.str();
}
static void on_draw(Gen &, uint64_t v)
{
  if (progress && progress->n < 65536 - 4) progress->c[progress->n++] = v;
  save_notes();
}

static void arm(int sec)
{
  itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, 0);
}
static void on_timeout(int)
{
  save_notes();
  static char const m[] = "PBT: case exceeded its CPU time limit\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(99);
}

static int limit = 30;
enum Outcome { ok, failed, discarded };

static Outcome execute(Gen &g, PropInfo const &p)
{
  if (progress) { progress->n = 0; }
  g.on_draw = on_draw;
#ifdef PBT_MPI
  g.soft = true;
#endif
  arm(limit);
  bool disc = false;
  try { p.fn(g); }
  catch (Failure const &f) { g.failed = true; g.fail_msg = f.msg; }
  catch (Discard const &) { disc = true; }
  catch (std::exception const &e) { g.failed = true; g.fail_msg = std::string("unexpected exception: ") + e.what(); }
  bool f = any_rank(g.failed);
  arm(0);
  if (f && !g.failed) { g.failed = true; g.fail_msg = "(failed on another rank)"; }
  return f ? ::failed : disc ? discarded : ok;
}

static Outcome replay(std::vector<uint64_t> const &c, PropInfo const &p, Gen *keep = 0, bool allow_known = false, bool notes = false)
{
  Gen *g = new Gen; g->mode = Gen::replay; g->choices = c; g->allow_known = allow_known; g->notes_on = notes;
  if (notes) g->notes.precision(9);
  noting = notes && rank_ == 0 ? g : 0;
  Outcome o = execute(*g, p);
  if (keep) { keep->used = g->used; keep->fail_msg = g->fail_msg; keep->notes.clear(); keep->notes.str(g->notes.str()); }
  noting = 0;
  delete g;
  return o;
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> c, PropInfo const &p, unsigned budget)
{
  bool progress_made = true;
  auto attempt = [&](std::vector<uint64_t> const &d) -> bool {
    if (!budget) return false;
    --budget;
    Gen k;
    if (replay(d, p, &k) != ::failed) return false;
    // keep the normalized form
    std::vector<uint64_t> u = k.used;
    while (u.size() && u.back() == 0) u.pop_back();
    if (u.size() > d.size() && d.size() != 0) u = d;
    c = u; return true; };
  while (progress_made && budget)
  {
    progress_made = false;
    for (size_t w = c.size() / 2 ? c.size() / 2 : 1; w >= 1 && budget; w /= 2)      // delete
      for (size_t i = 0; i + w <= c.size() && budget;)
      {
        std::vector<uint64_t> d(c); d.erase(d.begin() + i, d.begin() + i + w);
        if (attempt(d)) progress_made = true; else i += w;
      }
    for (size_t w = c.size() / 2 ? c.size() / 2 : 1; w >= 1 && budget; w /= 2)      // zero
      for (size_t i = 0; i + w <= c.size() && budget; i += w)
      {
        std::vector<uint64_t> d(c); bool nz = false;
        for (size_t j = i; j < i + w; ++j) { nz |= d[j] != 0; d[j] = 0; }
        if (nz && attempt(d)) progress_made = true;
      }
    for (size_t i = 0; i < c.size() && budget; ++i)                                 // reduce
    {
      uint64_t lo = 0;
      while (i < c.size() && c[i] > lo && budget)
      {
        std::vector<uint64_t> d(c); uint64_t mid = lo + (c[i] - lo) / 2; d[i] = mid;
        if (attempt(d)) progress_made = true; else lo = mid + 1;
      }
    }
  }
  return c;
}

static std::string esc(std::string const &s)
{
  std::string o;
  for (unsigned char ch : s)
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  return o;
}
static std::string list(std::vector<uint64_t> const &c)
{
  std::string o = "[";
  for (size_t i = 0; i < c.size(); ++i) { if (i) o += ","; o += std::to_string(c[i]); }
  return o + "]";
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
#ifndef PBT_NO_VSIP
  static int ac = 1; static char a0[] = "fuzz"; static char *av[] = {a0, 0};
  static char **avp = av;
  new vsip::vsipl(ac, avp);
#endif
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(uint8_t const *d, size_t n)
{
  if (n < 2) return 0;
  char const *only = getenv("PBT_PROP");
  size_t k = d[0] % props().size();
  if (only) for (size_t i = 0; i < props().size(); ++i) if (!strcmp(props()[i].name, only)) k = i;
  Gen g; g.mode = Gen::bytes; g.data = d + 1; g.size_ = n - 1;
  if (execute(g, props()[k]) == ::failed)
  {
    fprintf(stderr, "PBT-FAIL prop=%s choices=%s msg=%s\n", props()[k].name, list(g.used).c_str(), g.fail_msg.c_str());
    if (char const *o = getenv("PBT_FUZZ_OUT"))
    {
      std::ofstream f(o);
      f << "{\"prop\":\"" << props()[k].name << "\",\"choices\":" << list(g.used) << ",\"msg\":\"" << esc(g.fail_msg) << "\"}\n";
    }
    __builtin_trap();
  }
  return 0;
}
#else

static int run_main(int argc, char **argv)
{
  uint64_t seed = 1; unsigned shard = 0, nshards = 1; bool thorough = false, allow_known = false, do_shrink = false;
  double scale = 1;
  std::string mode, progress_file, out, prop, file;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list" || a == "--run") mode = a;
    else if (a == "--replay") { mode = a; file = next(); }
    else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--shard") shard = atoi(next().c_str());
    else if (a == "--nshards") nshards = atoi(next().c_str());
    else if (a == "--progress") progress_file = next();
    else if (a == "--out") out = next();
    else if (a == "--prop") prop = next();
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--limit") limit = atoi(next().c_str());
    else if (a == "--allow-known") allow_known = true;
    else if (a == "--shrink") do_shrink = true;
  }
  if (mode == "--list") { for (auto &p : props()) printf("%s %u %u\n", p.name, p.quick, p.thorough); return 0; }
#ifdef PBT_MPI
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &nranks_);
#endif
  signal(SIGPROF, on_timeout);
  if (mode == "--replay")
  {
    std::ifstream f(file); std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    // a line: PROP c0 c1 c2 ...
    std::istringstream is(text); std::string name; is >> name;
    std::vector<uint64_t> c; uint64_t v; while (is >> v) c.push_back(v);
    for (auto &p : props()) if (name == p.name)
    {
      Gen k;
      if (do_shrink && replay(c, p, &k, allow_known) == ::failed) c = shrink(k.used, p, 400);
      if (out.size()) notes_file = out + ".notes";
      Outcome o = replay(c, p, &k, allow_known, true);
      if (rank_ == 0 || k.fail_msg[0] != '(')
      if (out.size() && (o == ::failed) )
      {
        std::ofstream w(rank_ ? out + "." + std::to_string(rank_) : out);
        w << "{\"prop\":\"" << p.name << "\",\"choices\":" << list(c) << ",\"msg\":\"" << esc(k.fail_msg) << "\",\"case\":\"" << esc(k.notes.str()) << "\"}\n";
      }
      if (o == ::failed && (nranks_ == 1 || k.fail_msg[0] != '(')) fprintf(stderr, "FAILED %s: %s\n  case: %s\n", p.name, k.fail_msg.c_str(), k.notes.str().c_str());
      return o == ::failed;
    }
    fprintf(stderr, "no such property: %s\n", name.c_str());
    return 2;
  }
  if (mode != "--run") { fprintf(stderr, "usage\n"); return 2; }
  if (progress_file.size() && rank_ == 0)
  {
    int fd = open(progress_file.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 2;
    progress = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (progress == MAP_FAILED) return 2;
    progress->done = 0;
  }
  std::ostringstream js;
  js << "{\"props\":[";
  bool first = true; int rc = 0;
  for (size_t k = 0; k < props().size() && !rc; ++k)
  {
    PropInfo const &p = props()[k];
    if (prop.size() && prop != p.name) continue;
    uint64_t total = (uint64_t)((thorough ? p.thorough : p.quick) * scale);
    if (!total) total = 1;
    uint64_t ran = 0, disc = 0, nontriv = 0; std::set<uint64_t> distinct; std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::string fail_js;
    uint64_t ph = 1469598103934665603ULL; for (char const *s = p.name; *s; ++s) ph = (ph ^ (unsigned char)*s) * 1099511628211ULL;
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = shard; i < total; i += nshards)
    {
      if (progress) { progress->prop = k; progress->idx = i; }
      Gen g; g.state = mix(mix(seed) ^ ph) + mix(i * 2 + 1);
      g.notes_on = samples.size() < 3 || (ran % 997) == 0; g.notes.precision(9);
      Outcome o = execute(g, p);
      ++ran;
      if (o == discarded) { ++disc; continue; }
      if (o == ::failed)
      {
        std::vector<uint64_t> c = g.used; std::string m0 = g.fail_msg;
        Gen kk;
        if (replay(c, p, &kk) == ::failed) c = shrink(c, p, nranks_ > 1 ? 150 : 600);
        replay(c, p, &kk, false, true);
        std::string msg = kk.fail_msg.size() ? kk.fail_msg : m0;
        fail_js = "{\"prop\":\"" + std::string(p.name) + "\",\"case_no\":" + std::to_string(i) + ",\"choices\":" + list(c) + ",\"msg\":\"" + esc(msg) + "\",\"case\":\"" + esc(kk.notes.str()) + "\"}";
        if (nranks_ == 1 || msg[0] != '(') fprintf(stderr, "FAILED %s: %s\n  case: %s\n  choices: %s\n", p.name, msg.c_str(), kk.notes.str().c_str(), list(c).c_str());
        rc = 1; break;
      }
      for (auto &l : g.labels) ++labels[l];
      if (g.nontrivial_)
      {
        ++nontriv;
        uint64_t h = ph; for (uint64_t v : g.used) h = mix(h ^ v) + v;
        distinct.insert(h);
        if (g.notes_on && samples.size() < 3) samples.push_back(g.notes.str());
      }
    }
    timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    double secs = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
    if (!first) js << ",";
    first = false;
    js << "{\"name\":\"" << p.name << "\",\"ran\":" << ran << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << distinct.size() << ",\"secs\":" << secs;
    js << ",\"labels\":{"; bool f2 = true;
    for (auto &l : labels) { js << (f2 ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f2 = false; }
    js << "},\"samples\":["; f2 = true;
    for (auto &s : samples) { js << (f2 ? "" : ",") << "\"" << esc(s) << "\""; f2 = false; }
    js << "]";
    if (fail_js.size()) js << ",\"failure\":" << fail_js;
    js << "}";
  }
  js << "]}\n";
  if (out.size()) { std::ofstream w(rank_ ? out + "." + std::to_string(rank_) : out); w << js.str(); }
  if (progress) progress->done = 1;
  return rc;
}

int main(int argc, char **argv)
{
  int rc;
#ifndef PBT_NO_VSIP
  bool list_only = false;
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--list")) list_only = true;
  if (list_only) return run_main(argc, argv);
  int ac = 1; char **av = argv; char *keep[2] = {argv[0], 0}; av = keep;
  {
    vsip::vsipl init(ac, av);
    rc = run_main(argc, argv);
    if (rc) { fflush(0); 
#ifdef PBT_MPI
      // every rank gets here with the same verdict
      MPI_Barrier(MPI_COMM_WORLD);
#endif
    }
  }
#elif defined(PBT_MPI)
  // MPI belongs to this program, not to the library
  bool list_only = false;
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--list")) list_only = true;
  if (list_only) return run_main(argc, argv);
  int level; MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &level);
  rc = run_main(argc, argv);
  fflush(0);
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
#else
  rc = run_main(argc, argv);
#endif
  fflush(0);
  return rc;
}
#endif

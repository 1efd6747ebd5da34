// Script interpreter around Apollo's public API, used by the property checks.
//
//   executor              fork server: reads "RUN <dir> <cpu_s> <wall_ms> <nbytes>\n<script>" on
//                         stdin, runs the script in a child process with cwd <dir>, answers
//                         "END <kind> <code>\n" (kind: exit, signal, timeout).
//   executor SCRIPT OBS   runs one script in this process (used under mpirun and for replays).
//
// The child writes one line per observation to <dir>/../obs (see run()): "<op index> <text>".
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/Region.h"
#ifndef VP_NO_KOKKOS
#include <impl/Kokkos_Profiling_Interface.hpp>
#endif
#ifdef ENABLE_MPI
#include <mpi.h>
#endif
#include "stubs/vp_gpu.h"

// ---------------------------------------------------------------- live C++ allocations
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long long heap_live = 0;
#include <malloc.h>
#ifdef VP_COUNT_HEAP
#include <new>
static void *counted(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  heap_live += malloc_usable_size(p);
  return p;
}
static void uncounted(void *p)
{
  if (p) heap_live -= malloc_usable_size(p);
  free(p);
}
void *operator new(size_t n) { return counted(n); }
void *operator new[](size_t n) { return counted(n); }
void operator delete(void *p) noexcept { uncounted(p); }
void operator delete[](void *p) noexcept { uncounted(p); }
void operator delete(void *p, size_t) noexcept { uncounted(p); }
void operator delete[](void *p, size_t) noexcept { uncounted(p); }
#endif

// ---------------------------------------------------------------- controlled clock
static bool clk_on = false;
static long long clk_s = 0, clk_ns = 0;       // monotonic
static long long rt_s = 1500000000, rt_ns = 0;  // realtime, moves independently
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
  if (clk_on && ts) {
    if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME) {
      ts->tv_sec = clk_s; ts->tv_nsec = clk_ns;
      return 0;
    }
    if (id == CLOCK_MONOTONIC_COARSE) {
      ts->tv_sec = clk_s; ts->tv_nsec = clk_ns / 4000000 * 4000000;
      return 0;
    }
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
      ts->tv_sec = rt_s; ts->tv_nsec = rt_ns;
      return 0;
    }
  }
  return syscall(SYS_clock_gettime, id, ts);
}

// ---------------------------------------------------------------- seeded random_device
static bool rd_on = false;
static unsigned long long rd_state = 0;
static bool rd_const = false;  // every draw gives the same value, so the order of draws does not matter
static unsigned rd_next()
{
  if (rd_const) return (unsigned)(rd_state * 2654435761u) ^ (unsigned)(rd_state >> 7);
  unsigned long long z = (rd_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (unsigned)((z ^ (z >> 31)) >> 16);
}
namespace std
{
random_device::result_type random_device::_M_getval()
{
  if (rd_on) return rd_next();
  unsigned v = 0;
  FILE *f = fopen("/dev/urandom", "rb");
  if (f) { if (fread(&v, sizeof v, 1, f) != 1) v = 42; fclose(f); }
  return v;
}
}  // namespace std

// ---------------------------------------------------------------- observations
static FILE *obs = nullptr;
static int cur_op = 0;
static void out(const char *fmt, ...)
{
  fprintf(obs, "%d ", cur_op);
  va_list ap;
  va_start(ap, fmt);
  vfprintf(obs, fmt, ap);
  va_end(ap);
  fputc('\n', obs);
}
[[noreturn]] static void harness_error(const char *fmt, ...)
{
  fprintf(obs, "%d HARNESS ", cur_op);
  va_list ap;
  va_start(ap, fmt);
  vfprintf(obs, fmt, ap);
  va_end(ap);
  fputc('\n', obs);
  fflush(obs);
  _exit(97);
}

// ---------------------------------------------------------------- scripted device events
struct vp_gpu_event {
  char kind;
  bool alive;
  int slot;   // execution the last record belongs to, -1: never recorded
  int role;   // 0: recorded while beginning it, 1: while ending it
};
struct SlotGpu { int polls = -1; float ms = 0; };  // polls: -1 pending, n: done after n polls
static std::map<int, SlotGpu> gpu_slots;
static int gpu_live = 0, gpu_slot = -1, gpu_role = -1;
static void gpu_bad(const char *what)
{
  out("GPUBAD %s", what);
  fflush(obs);
}
int vp_gpu_create(vp_gpu_event **e, char kind, unsigned flags)
{
  *e = (vp_gpu_event *)malloc(sizeof(vp_gpu_event));  // never freed, uses after the end are noticed
  **e = vp_gpu_event{kind, true, -1, -1};
  if (flags & 2) gpu_bad("timing disabled");
  gpu_live++;
  return 0;
}
int vp_gpu_destroy(vp_gpu_event *e, char kind)
{
  if (!e->alive || e->kind != kind) { gpu_bad("destroy"); return 400; }
  e->alive = false;
  gpu_live--;
  return 0;
}
int vp_gpu_record(vp_gpu_event *e, char kind)
{
  if (!e->alive || e->kind != kind) { gpu_bad("record"); return 400; }
  e->slot = gpu_slot;
  e->role = gpu_role;
  return 0;
}
static bool gpu_ready(vp_gpu_event *e, bool count)
{
  if (e->role == 0) return true;
  SlotGpu &s = gpu_slots[e->slot];
  if (s.polls < 0) return false;
  if (s.polls == 0) return true;
  if (count) s.polls--;
  return false;
}
int vp_gpu_query(vp_gpu_event *e, char kind)
{
  if (!e->alive || e->kind != kind) { gpu_bad("query"); return 400; }
  return gpu_ready(e, true) ? 0 : 600;
}
int vp_gpu_sync(vp_gpu_event *e, char kind)
{
  if (!e->alive || e->kind != kind) { gpu_bad("sync"); return 400; }
  if (e->role == 1 && gpu_slots[e->slot].polls > 0) gpu_slots[e->slot].polls = 0;
  return 0;
}
int vp_gpu_elapsed(float *ms, vp_gpu_event *a, vp_gpu_event *b, char kind)
{
  if (!a->alive || !b->alive || a->kind != kind || b->kind != kind) { gpu_bad("elapsed"); return 400; }
  if (a->slot < 0 || b->slot < 0 || a->role != 0 || b->role != 1) { gpu_bad("elapsed of unrecorded"); return 400; }
  if (!gpu_ready(b, true)) return 600;
  if (a->slot != b->slot) gpu_bad("elapsed across executions");
  *ms = gpu_slots[b->slot].ms;
  return 0;
}

// ---------------------------------------------------------------- script interpreter
struct Tok {
  std::vector<std::string> t;
  size_t i = 0;
  const std::string &s()
  {
    if (i >= t.size()) harness_error("missing argument");
    return t[i++];
  }
  std::string str()  // percent-decoded, "-" is the empty string
  {
    const std::string &x = s();
    if (x == "-") return "";
    std::string r;
    for (size_t k = 0; k < x.size(); k++)
      if (x[k] == '%') { r += (char)strtol(x.substr(k + 1, 2).c_str(), nullptr, 16); k += 2; }
      else r += x[k];
    return r;
  }
  int n() { return (int)strtol(s().c_str(), nullptr, 10); }
  long long ll() { return strtoll(s().c_str(), nullptr, 10); }
  double d() { return strtod(s().c_str(), nullptr); }
  float f() { return (float)strtod(s().c_str(), nullptr); }
  std::vector<float> fv()
  {
    int k = n();
    std::vector<float> v;
    for (int j = 0; j < k; j++) v.push_back(f());
    return v;
  }
};

static std::map<int, Apollo::Region *> R;
static std::map<int, std::pair<Apollo::Region *, Apollo::RegionContext *>> C;
static std::map<int, std::unique_ptr<Apollo::Dataset>> D;
static std::map<int, std::unique_ptr<apollo::PolicyModel>> M;
static std::map<int, std::unique_ptr<TimingModel>> T;

static void dump(const Apollo::Dataset &ds)
{
  std::string line = "DS";
  char b[64];
  for (auto &t : ds.toVectorOfTuples()) {
    line += " |";
    snprintf(b, sizeof b, " %d", std::get<1>(t)); line += b;
    snprintf(b, sizeof b, " %a", std::get<2>(t)); line += b;
    for (float f : std::get<0>(t)) { snprintf(b, sizeof b, " %a", f); line += b; }
  }
  out("%s", line.c_str());
}
static void best(const Apollo::Dataset &ds)
{
  std::vector<std::vector<float>> F;
  std::vector<int> P;
  std::map<std::vector<float>, std::pair<int, double>> B;
  ds.findMinMetricPolicyByFeatures(F, P, B);
  std::string line = "BEST";
  char b[64];
  for (size_t i = 0; i < F.size(); i++) {
    snprintf(b, sizeof b, " | %d", i < P.size() ? P[i] : -12345); line += b;
    for (float f : F[i]) { snprintf(b, sizeof b, " %a", f); line += b; }
  }
  if (P.size() != F.size()) line += " | LENGTHS";
  line += " ; ";
  for (auto &x : B) {
    snprintf(b, sizeof b, " | %d %a", x.second.first, x.second.second); line += b;
    for (float f : x.first) { snprintf(b, sizeof b, " %a", f); line += b; }
  }
  out("%s", line.c_str());
}

static Apollo::Region *reg(int i)
{
  auto it = R.find(i);
  if (it == R.end()) harness_error("no region %d", i);
  return it->second;
}
static std::pair<Apollo::Region *, Apollo::RegionContext *> &ctx(int i)
{
  auto it = C.find(i);
  if (it == C.end()) harness_error("no context %d", i);
  return it->second;
}

#ifndef VP_NO_KOKKOS
using namespace Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_parse_args(int argc, char **argv);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
void kokkosp_end_context(size_t);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_provide_tool_programming_interface(uint32_t, ToolProgrammingInterface);
void kokkosp_request_tool_settings(uint32_t, ToolSettings *);
}
static int fences = 0;
static unsigned fence_dev = 0;
static void fence_cb(const uint32_t d) { fences++; fence_dev = d; }
static std::map<size_t, VariableInfo *> kinfo;
static Kokkos_Tools_VariableValue_ValueUnion kval(Tok &a, int type)
{
  Kokkos_Tools_VariableValue_ValueUnion v;
  memset(&v, 0, sizeof v);
  if (type == kokkos_value_int64) v.int_value = a.ll();
  else if (type == kokkos_value_double) v.double_value = a.d();
  else strncpy(v.string_value, a.str().c_str(), 63);
  return v;
}
static void kdecl(Tok &a, bool output)
{
  // kdecl_* id name type(i|d|s) set n v... | range lo hi step openlo openhi | unb
  size_t id = a.ll();
  std::string name = a.str(), ty = a.s(), q = a.s();
  auto *info = new VariableInfo();
  info->type = ty == "i" ? kokkos_value_int64 : ty == "d" ? kokkos_value_double : kokkos_value_string;
  info->category = kokkos_value_ratio;
  info->toolProvidedInfo = nullptr;
  if (q == "set") {
    info->valueQuantity = kokkos_value_set;
    int n = a.n();
    info->candidates.set.size = n;
    if (ty == "i") info->candidates.set.values.int_value = new int64_t[n];
    else if (ty == "d") info->candidates.set.values.double_value = new double[n];
    else info->candidates.set.values.string_value = new Kokkos_Tools_Tuning_String[n];
    for (int k = 0; k < n; k++) {
      auto v = kval(a, info->type);
      if (ty == "i") info->candidates.set.values.int_value[k] = v.int_value;
      else if (ty == "d") info->candidates.set.values.double_value[k] = v.double_value;
      else memcpy(info->candidates.set.values.string_value[k], v.string_value, 64);
    }
  } else if (q == "range") {
    info->valueQuantity = kokkos_value_range;
    auto &r = info->candidates.range;
    r.lower = kval(a, info->type);
    r.upper = kval(a, info->type);
    r.step = kval(a, info->type);
    r.openLower = a.n();
    r.openUpper = a.n();
  } else
    info->valueQuantity = kokkos_value_unbounded;
  kinfo[id] = info;
  // The declaring application's string does not outlive the call.
  char *tmp = strdup(name.c_str());
  if (output) kokkosp_declare_output_type(tmp, id, info);
  else kokkosp_declare_input_type(tmp, id, info);
  memset(tmp, '?', strlen(tmp));
  free(tmp);
}
static void kreq(Tok &a)
{
  // kreq ctx nin (id value)... nout id...
  size_t cid = a.ll();
  int ni = a.n();
  std::vector<VariableValue> in(ni + 1), ou;
  for (int k = 0; k < ni; k++) {
    size_t id = a.ll();
    memset((void *)&in[k], 0, sizeof in[k]);
    in[k].type_id = id;
    in[k].metadata = kinfo.at(id);
    in[k].value = kval(a, in[k].metadata->type);
  }
  int no = a.n();
  ou.resize(no + 1);
  for (int k = 0; k < no; k++) {
    size_t id = a.ll();
    memset((void *)&ou[k], 0, sizeof ou[k]);
    ou[k].type_id = id;
    ou[k].metadata = kinfo.at(id);
    if (ou[k].metadata->type == kokkos_value_int64) ou[k].value.int_value = -777777;
    else if (ou[k].metadata->type == kokkos_value_double) ou[k].value.double_value = -777777.5;
    else strcpy(ou[k].value.string_value, "<unset>");
  }
  std::vector<VariableValue> in0 = in;
  kokkosp_request_values(cid, ni, in.data(), no, ou.data());
  std::string line = "KREQ";
  char b[128];
  for (int k = 0; k < ni; k++)
    if (memcmp((void *)&in0[k], (void *)&in[k], sizeof in[k])) line += " INPUT-CHANGED";
  for (int k = 0; k < no; k++) {
    auto &v = ou[k];
    line += " |";
    auto own = kinfo.find(v.type_id);
    bool same = own != kinfo.end() && v.metadata == own->second;
    snprintf(b, sizeof b, " %zu %d", v.type_id, same); line += b;
    VariableInfo *m = v.metadata;
    if (m->type == kokkos_value_int64) snprintf(b, sizeof b, " %lld", (long long)v.value.int_value);
    else if (m->type == kokkos_value_double) snprintf(b, sizeof b, " %a", v.value.double_value);
    else {
      std::string h = " ";
      v.value.string_value[63] = 0;
      for (char *c = v.value.string_value; *c; c++) { snprintf(b, sizeof b, "%02x", (unsigned char)*c); h += b; }
      h += "."; line += h; b[0] = 0;
    }
    line += b;
  }
  out("%s", line.c_str());
}
#endif

// Loads a file in a forked child; 'ok', 'refused' (abort or uncaught exception) or what else happened.
static std::string load_child(const std::string &kind, int nf, int np, const std::string &path)
{
  fflush(obs);
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL);
    alarm(20);
    if (kind == "dataset") {
      Apollo::Dataset d;
      std::ifstream i(path);
      d.load(i);
    } else if (kind[0] == '+') {  // the constructor that reads a file
      auto m = apollo::ModelFactory::createPolicyModel(kind.substr(1), np, path);
    } else {
      std::unordered_map<std::string, std::string> params;
      auto m = apollo::ModelFactory::createPolicyModel(kind, nf, np, params);
      m->load(path);
    }
    _exit(0);
  }
  int st = 0;
  if (p < 0 || waitpid(p, &st, 0) != p) harness_error("fork");
  if (WIFEXITED(st))  // 97..99: the harness, the sanitizers
    return WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) < 97 || WEXITSTATUS(st) > 99 ? "refused" : "exit" + std::to_string(WEXITSTATUS(st));
  if (WTERMSIG(st) == SIGABRT) return "refused";
  return "signal" + std::to_string(WTERMSIG(st));
}

// ---------------------------------------------------------------- call paths
// A walk calls a generated chain of functions of the program and of loaded modules; the last one
// asks Apollo for the identifier of a call site and records the call stack as the harness sees it.
struct Walk {
  std::vector<std::string> path;  // "x<0..7>": function and call site in the program, "m<slot>:<0..3>": in a module
  size_t at = 0;
  int dist = 0, leaf = 0;
  std::string id;
  void *frames[1024];
  int n = 0;
};
static std::map<int, void *> mods;
static void walk(void *p);
#define LEAF(k) \
  __attribute__((noinline)) static void leaf##k(Walk *w) \
  { \
    auto *x = Apollo::instance(); \
    w->n = backtrace(w->frames, 1024); \
    if (w->dist) { w->id = x->getCallpathOffset(w->dist); __asm__ volatile("nop # leaf" #k ::: "memory"); } \
    else { w->id = x->getCallpathOffset(); __asm__ volatile("nop # default" #k ::: "memory"); } \
  }
LEAF(0) LEAF(1) LEAF(2)
static void (*const leafs[3])(Walk *) = {leaf0, leaf1, leaf2};
#define FN(k) \
  __attribute__((noinline)) static void fn##k(Walk *w, int site) \
  { \
    if (site) { walk(w); __asm__ volatile("nop # a" #k ::: "memory"); } \
    else { walk(w); __asm__ volatile("nop # b" #k ::: "memory"); } \
  }
FN(0) FN(1) FN(2) FN(3)
__attribute__((noinline)) static void walk(void *p)
{
  Walk *w = (Walk *)p;
  if (w->at == w->path.size()) { leafs[w->leaf](w); __asm__ volatile("nop" ::: "memory"); return; }
  const std::string &e = w->path[w->at++];
  if (e[0] == 'x') {
    int k = atoi(e.c_str() + 1);
    void (*const f[4])(Walk *, int) = {fn0, fn1, fn2, fn3};
    f[k / 2](w, k % 2);
  } else {
    size_t c = e.find(':');
    void *h = mods.at(atoi(e.c_str() + 1));
    auto f = (void (*)(void (*)(void *), void *))dlsym(h, ("hop" + e.substr(c + 1)).c_str());
    if (!f) harness_error("dlsym");
    f(walk, w);
  }
  __asm__ volatile("nop" ::: "memory");
}
static std::string hexs(const std::string &s)
{
  std::string h; char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); h += b; }
  return h + ".";
}

static bool step(Tok &a);
static bool step(Tok &a)
{
  const std::string op = a.s();
  if (op == "env") { std::string k = a.str(), v = a.str(); setenv(k.c_str(), v.c_str(), 1); }
  else if (op == "unsetenv") { unsetenv(a.str().c_str()); }
  else if (op == "seed") { rd_on = true; rd_state = a.ll(); }
  else if (op == "seedc") { rd_on = rd_const = true; rd_state = a.ll(); }
  else if (op == "clock") { clk_on = true; clk_s = a.ll(); clk_ns = a.ll(); }
  else if (op == "adv") {  // advance by seconds, nanoseconds; realtime goes its own way
    long long s = a.ll(), ns = a.ll();
    clk_s += s; clk_ns += ns;
    if (clk_ns >= 1000000000) { clk_s++; clk_ns -= 1000000000; }
    rt_s += 7 - s; rt_ns = (rt_ns + 123456789) % 1000000000;
  }
  else if (op == "apollo") { Apollo::instance(); }
  else if (op == "rank") { auto *x = Apollo::instance(); out("RANK %d %d", x->mpiRank, x->mpiSize); }
  else if (op == "region") {  // id api nf np mtd name model yaml
    int id = a.n(); std::string api = a.s();
    int nf = a.n(), np = a.n(), mtd = a.n();
    std::string name = a.str(), model = a.str(), yaml = a.str();
    char *tmp = strdup(name.c_str());
    if (api == "c") R[id] = (Apollo::Region *)__apollo_region_create(nf, tmp, np, mtd, model.c_str());
    else if (yaml.empty() && model.empty() && mtd == 0) R[id] = new Apollo::Region(nf, tmp, np);
    else R[id] = new Apollo::Region(nf, tmp, np, mtd, model, yaml);
    memset(tmp, '?', strlen(tmp));
    free(tmp);
  }
  // context interface
  else if (op == "begin") {  // region slot kind
    int r = a.n(), s = a.n(); std::string k = a.s();
    auto *g = reg(r);
    gpu_slot = s; gpu_role = 0;
    Apollo::RegionContext *c;
    if (k == "sync") c = g->begin();
    else if (k == "ksync") c = g->begin(Apollo::Region::TIMING_SYNC);
    else if (k == "cuda") c = g->begin(Apollo::Region::TIMING_CUDA_ASYNC);
    else if (k == "hip") c = g->begin(Apollo::Region::TIMING_HIP_ASYNC);
    else harness_error("kind");
    gpu_slot = gpu_role = -1;
    C[s] = {g, c};
  }
  else if (op == "beginf") { int r = a.n(), s = a.n(); auto v = a.fv(); auto *g = reg(r); auto *c = g->begin(v); C[s] = {g, c}; }
  else if (op == "feat") { auto &c = ctx(a.n()); c.first->setFeature(c.second, a.f()); }
  else if (op == "pol") { auto &c = ctx(a.n()); out("P %d", c.first->getPolicyIndex(c.second)); }
  else if (op == "end") {
    int s = a.n(); auto c = ctx(s); C.erase(s);
    gpu_slot = s; gpu_role = 1;
    c.first->end(c.second);
    gpu_slot = gpu_role = -1;
  }
  else if (op == "endm") { int s = a.n(); double m = a.d(); auto c = ctx(s); C.erase(s); c.first->end(c.second, m); }
  // context-free interface
  else if (op == "featd") { auto *g = reg(a.n()); g->setFeature(a.f()); }
  else if (op == "pold") { out("P %d", reg(a.n())->getPolicyIndex()); }
  else if (op == "endd") { reg(a.n())->end(); }
  else if (op == "enddg") { auto *g = reg(a.n()); int s = a.n(); C.erase(s); gpu_slot = s; gpu_role = 1; g->end(); gpu_slot = gpu_role = -1; }
  else if (op == "endmd") { auto *g = reg(a.n()); g->end(a.d()); }
  else if (op == "begind") { reg(a.n())->begin(); }
  // extern "C" interface
  else if (op == "beginc") { __apollo_region_begin(reg(a.n())); }
  else if (op == "featc") { auto *g = reg(a.n()); __apollo_region_set_feature(g, a.f()); }
  else if (op == "polc") { out("P %d", __apollo_region_get_policy(reg(a.n()))); }
  else if (op == "endc") { __apollo_region_end(reg(a.n())); }
  else if (op == "trainc") { auto *g = reg(a.n()); __apollo_region_train(g, a.n()); }
  // training
  else if (op == "train") { Apollo::instance()->train(a.n()); }
  else if (op == "flush") { Apollo::instance()->flushAllRegionMeasurements(a.n()); }
  else if (op == "rtrain") {
    auto *g = reg(a.n()); int st = a.n(), co = a.n(), fo = a.n();
    if (co && !fo) g->train(st); else g->train(st, co, fo);
  }
  else if (op == "collect") { reg(a.n())->collectPendingContexts(); }
  // observations of a region
  else if (op == "ds") { auto *g = reg(a.n()); if (g->dataset.size() != g->dataset.toVectorOfTuples().size()) out("SIZE"); dump(g->dataset); }
  else if (op == "best") { best(reg(a.n())->dataset); }
  else if (op == "probe") { auto *g = reg(a.n()); auto v = a.fv(); out("Q %d", g->model->getIndex(v)); }
  else if (op == "probes") {  // region nqueries nf f...: one line
    auto *g = reg(a.n()); int k = a.n(); std::string l = "QS";
    for (int j = 0; j < k; j++) { auto v = a.fv(); l += " " + std::to_string(g->model->getIndex(v)); }
    out("%s", l.c_str());
  }
  else if (op == "trainable") { out("T %d", reg(a.n())->model->isTrainable() ? 1 : 0); }
  else if (op == "mname") { auto *g = reg(a.n()); out("N %s %s %d", g->model->name.c_str(), g->model_name.c_str(), g->idx); }
  else if (op == "rname") { auto *g = reg(a.n()); out("RN %d", (int)strnlen(g->name, sizeof g->name)); }
  else if (op == "mstore") { auto *g = reg(a.n()); g->model->store(a.str()); }
  else if (op == "mload") { auto *g = reg(a.n()); g->model->load(a.str()); }
  else if (op == "rdins") { auto *g = reg(a.n()); auto v = a.fv(); int p = a.n(); double m = a.d(); g->dataset.insert(v, p, m); }
  // datasets
  else if (op == "dnew") { D[a.n()].reset(new Apollo::Dataset()); }
  else if (op == "dins") { auto &d = *D.at(a.n()); auto v = a.fv(); int p = a.n(); double m = a.d(); d.insert(v, p, m); }
  else if (op == "dmerge") { auto &d = *D.at(a.n()); d.insert(*D.at(a.n())); }
  else if (op == "dclear") { D.at(a.n())->clear(); }
  else if (op == "ddump") { auto &d = *D.at(a.n()); out("SZ %zu", d.size()); dump(d); }
  else if (op == "dbest") { best(*D.at(a.n())); }
  else if (op == "dstore") { auto &d = *D.at(a.n()); std::ofstream o(a.str()); d.store(o); o.close(); if (!o) harness_error("dstore"); }
  else if (op == "dload") { auto &d = *D.at(a.n()); std::ifstream i(a.str()); if (!i) harness_error("dload"); d.load(i); }
  else if (op == "dstores") { auto &d = *D.at(a.n()); std::stringstream o; d.store(o); std::string p = a.str(); std::ofstream f(p); f << o.str(); }
  // models
  else if (op == "mnew") {
    int id = a.n(); std::string nm = a.str(); int nf = a.n(), np = a.n(), k = a.n();
    std::unordered_map<std::string, std::string> params;
    for (int j = 0; j < k; j++) { std::string x = a.str(); params[x] = a.str(); }
    M[id] = apollo::ModelFactory::createPolicyModel(nm, nf, np, params);
  }
  else if (op == "mnewp") { int id = a.n(); std::string nm = a.str(); int np = a.n(); M[id] = apollo::ModelFactory::createPolicyModel(nm, np, a.str()); }
  else if (op == "mtrain") { auto &m = M.at(a.n()); m->train(*D.at(a.n())); }
  else if (op == "mget") { auto &m = M.at(a.n()); auto v = a.fv(); out("Q %d", m->getIndex(v)); }
  else if (op == "mgets") {
    auto &m = M.at(a.n()); int k = a.n(); std::string l = "QS";
    for (int j = 0; j < k; j++) { auto v = a.fv(); l += " " + std::to_string(m->getIndex(v)); }
    out("%s", l.c_str());
  }
  else if (op == "msample") {  // model times features: counts
    auto &m = M.at(a.n()); int times = a.n(); auto v = a.fv(); std::map<int, int> h; std::string l = "H";
    for (int j = 0; j < times; j++) { auto w = v; h[m->getIndex(w)]++; }
    for (auto &x : h) l += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
    out("%s", l.c_str());
  }
  else if (op == "mseq") {  // model times features: the sequence of decisions
    auto &m = M.at(a.n()); int times = a.n(); auto v = a.fv(); std::string l = "QS";
    for (int j = 0; j < times; j++) { auto w = v; l += " " + std::to_string(m->getIndex(w)); }
    out("%s", l.c_str());
  }
  else if (op == "mst") { auto &m = M.at(a.n()); m->store(a.str()); }
  else if (op == "mld") { auto &m = M.at(a.n()); m->load(a.str()); }
  else if (op == "mtr") { out("T %d", M.at(a.n())->isTrainable() ? 1 : 0); }
  else if (op == "mdel") { M.erase(a.n()); }
  // timing models
  else if (op == "tmnew") { int id = a.n(); T[id] = apollo::ModelFactory::createRegressionTree(*D.at(a.n())); }
  else if (op == "tmget") {
    auto &m = T.at(a.n()); int k = a.n(); std::string l = "TP"; char b[64];
    for (int j = 0; j < k; j++) { auto v = a.fv(); snprintf(b, sizeof b, " %a", m->getTimePrediction(v)); l += b; }
    out("%s", l.c_str());
  }
  else if (op == "rtmget") {
    auto *g = reg(a.n()); int k = a.n(); std::string l = "TP"; char b[64];
    if (!g->time_model) l += " none";
    else for (int j = 0; j < k; j++) { auto v = a.fv(); snprintf(b, sizeof b, " %a", g->time_model->getTimePrediction(v)); l += b; }
    out("%s", l.c_str());
  }
  else if (op == "tmst") { auto &m = T.at(a.n()); m->store(a.str()); }
  // damaged files: one forked load each
  else if (op == "tload") {  // kind nf np file lo hi step: every prefix length
    std::string kind = a.str(); int nf = a.n(), np = a.n(); std::string path = a.str();
    long lo = a.ll(), hi = a.ll(), stp = a.ll();
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss; ss << f.rdbuf();
    std::string all = ss.str(), l = "TL";
    for (long n = lo; n < hi; n += stp) {
      std::ofstream o(path + ".cut", std::ios::binary | std::ios::trunc);
      o.write(all.data(), n); o.close();
      std::string r = load_child(kind, nf, np, path + ".cut");
      if (r != "refused") l += " " + std::to_string(n) + ":" + r;
    }
    out("%s", l.c_str());
  }
  else if (op == "lload") {  // kind nf np k file...
    std::string kind = a.str(); int nf = a.n(), np = a.n(), k = a.n(); std::string l = "LL";
    for (int j = 0; j < k; j++) l += " " + load_child(kind, nf, np, a.str());
    out("%s", l.c_str());
  }
  // call paths
  else if (op == "modload") { int k = a.n(); std::string p = a.str(); mods[k] = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!mods[k]) harness_error("dlopen %s", dlerror()); }
  else if (op == "walk") {  // times dist leaf k element...: identifiers and the stack
    int times = a.n(); Walk w; w.dist = a.n(); w.leaf = a.n(); int k = a.n();
    for (int j = 0; j < k; j++) w.path.push_back(a.s());
    std::string first;
    size_t before = 0, after = 0;
    for (int j = 0; j < times; j++) {
      if (j == 2) before = mallinfo2().uordblks;
      w.at = 0;
      walk(&w);
      if (j == 0) first = w.id; else if (first != w.id) { out("WALKDIFF %s %s", hexs(first).c_str(), hexs(w.id).c_str()); break; }
    }
    after = mallinfo2().uordblks;
    std::string l;
    for (int j = 0; j < w.n; j++) {
      Dl_info i; char b[64]; const char *nm = "";
      if (dladdr(w.frames[j], &i) && i.dli_fname) nm = i.dli_fname;
      const char *sl = strrchr(nm, '/');
      snprintf(b, sizeof b, " %p ", w.frames[j]);
      l += b + hexs(sl ? sl + 1 : nm);
    }
    out("WALK %lld %p %s%s", times > 2 ? (long long)after - (long long)before : 0, (void *)leafs[w.leaf], hexs(first).c_str(), l.c_str());
  }
  // device events
  else if (op == "gpudone") { int s = a.n(); int polls = a.n(); gpu_slots[s].polls = polls; gpu_slots[s].ms = a.f(); }
  else if (op == "gpulive") { out("L %d", gpu_live); }
  else if (op == "heap") { long long h = heap_live; out("HEAP %lld %d", h, gpu_live); }
  else if (op == "hall") {  // all allocations of the process, by new and malloc
    size_t h = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : mallinfo2().uordblks;
    out("HALL %zu", h);
  }
  else if (op == "repeat") {  // n, then ';'-separated operations (without observations)
    int n = a.n();
    std::vector<Tok> ops(1);
    while (a.i < a.t.size()) { if (a.t[a.i] == ";") ops.emplace_back(); else ops.back().t.push_back(a.t[a.i]); a.i++; }
    FILE *keep = obs, *null = fopen("/dev/null", "w");
    obs = null;
    for (int j = 0; j < n; j++)
      for (auto &o : ops) { o.i = 0; step(o); }
    obs = keep;
    fclose(null);
  }
#ifndef VP_NO_KOKKOS
  else if (op == "kparse") {
    int n = a.n(); static std::vector<std::string> args; std::vector<char *> av;
    args.clear(); for (int j = 0; j < n; j++) args.push_back(a.str());
    for (auto &x : args) av.push_back((char *)x.c_str());
    av.push_back(nullptr);
    kokkosp_parse_args(n, av.data());
  }
  else if (op == "kinit") { kokkosp_init_library(0, 20210225, 0, nullptr); }
  else if (op == "kfin") { kokkosp_finalize_library(); }
  else if (op == "kout") { kdecl(a, true); }
  else if (op == "kin") { kdecl(a, false); }
  else if (op == "kreq") { kreq(a); }
  else if (op == "kend") { kokkosp_end_context(a.ll()); }
  else if (op == "kfence") { ToolProgrammingInterface t; memset(&t, 0, sizeof t); t.fence = fence_cb; kokkosp_provide_tool_programming_interface(1, t); }
  else if (op == "kpar") {  // kind devid
    std::string k = a.s(); unsigned d = a.n(); uint64_t id = 0; fences = 0;
    if (k == "for") { kokkosp_begin_parallel_for("k", d, &id); int b = fences; kokkosp_end_parallel_for(id); out("F %d %d %u", b, fences - b, fence_dev); }
    else if (k == "scan") { kokkosp_begin_parallel_scan("k", d, &id); int b = fences; kokkosp_end_parallel_scan(id); out("F %d %d %u", b, fences - b, fence_dev); }
    else { kokkosp_begin_parallel_reduce("k", d, &id); int b = fences; kokkosp_end_parallel_reduce(id); out("F %d %d %u", b, fences - b, fence_dev); }
  }
#endif
#ifdef ENABLE_MPI
  else if (op == "barrier") { MPI_Barrier(MPI_COMM_WORLD); }
#endif
  else if (op == "die") { fflush(obs); kill(getpid(), SIGKILL); }
  else if (op == "echo") { out("E %s", a.s().c_str()); }
  else if (op == "flushobs") { fflush(obs); }
  else if (op == "quit") { return false; }  // normal exit of the program: exit handlers run
  else harness_error("unknown op %s", op.c_str());
  return true;
}

static void on_abort(int)
{
  // keep the observations made so far, then die of the signal
  if (obs) fflush(obs);
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}

static void interpret(const std::string &script)
{
  std::istringstream is(script);
  std::string line;
  int i = 0;
  while (std::getline(is, line)) {
    cur_op = i++;
    Tok a;
    std::istringstream ls(line);
    std::string w;
    while (ls >> w) a.t.push_back(w);
    if (a.t.empty()) continue;
    bool go = step(a);
    fflush(obs);
    if (!go) break;
  }
  cur_op = i;
  M.clear();
  D.clear();
  out("DONE");
  fflush(obs);
}

static long long now_ms()
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000ll + ts.tv_nsec / 1000000;
}

static volatile sig_atomic_t got_chld = 0;

int main(int argc, char **argv)
{
  if (argc == 3) {
    std::ifstream f(argv[1]);
    std::stringstream ss;
    ss << f.rdbuf();
#ifdef ENABLE_MPI
    MPI_Init(&argc, &argv);
    int rank;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::string op = std::string(argv[2]) + "." + std::to_string(rank);
    std::string sp = std::string(argv[1]) + "." + std::to_string(rank);
    std::ifstream g(sp);
    ss.str("");
    ss.clear();
    ss << g.rdbuf();
    obs = fopen(op.c_str(), "w");
#else
    obs = fopen(argv[2], "w");
#endif
    signal(SIGABRT, on_abort);
    interpret(ss.str());
#ifdef ENABLE_MPI
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
#endif
    fflush(obs);
    return 0;
  }
  int devnull = open("/dev/null", O_RDWR);
  char hdr[8192];
  while (fgets(hdr, sizeof hdr, stdin)) {
    char dir[4096], base[4096];
    int cpu_s, wall_ms;
    size_t nb;
    if (sscanf(hdr, "RUN %4095s %4095s %d %d %zu", dir, base, &cpu_s, &wall_ms, &nb) != 5) return 3;
    std::string script(nb, 0);
    if (nb && fread(&script[0], 1, nb, stdin) != nb) return 4;
    std::string obsp = std::string(base) + ".obs", errp = std::string(base) + ".err";
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      obs = fopen(obsp.c_str(), "w");
      int e = open(errp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(devnull, 0);
      dup2(devnull, 1);
      dup2(e, 2);
      close(e);
      if (!obs || chdir(dir)) _exit(98);
      struct rlimit rl;
      rl.rlim_cur = cpu_s; rl.rlim_max = cpu_s + 1; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 256ll << 20; setrlimit(RLIMIT_FSIZE, &rl);
#ifdef VP_LIMIT_AS
      rl.rlim_cur = rl.rlim_max = 4ll << 30; setrlimit(RLIMIT_AS, &rl);
#endif
      signal(SIGABRT, on_abort);
      interpret(script);
      exit(0);  // runs Apollo's destructor, as a program's normal end does
    }
    if (p < 0) { printf("END fork %d\n", errno); fflush(stdout); continue; }
    int st = 0;
    bool to = false;
    long long t0 = now_ms();
    int us = 100;
    for (;;) {
      pid_t w = waitpid(p, &st, WNOHANG);
      if (w == p) break;
      if (now_ms() - t0 > wall_ms) { to = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
      usleep(us);
      if (us < 2000) us += us / 4;
    }
    kill(-p, SIGKILL);
    if (to) printf("END timeout 0\n");
    else if (WIFEXITED(st)) printf("END exit %d\n", WEXITSTATUS(st));
    else printf("END signal %d\n", WTERMSIG(st));
    fflush(stdout);
  }
  return 0;
}

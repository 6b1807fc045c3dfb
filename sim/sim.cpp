// Simulator core implementation and the search / gate / minimise / replay driver.
#include "sim.hpp"
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>

namespace boost {
void assertion_failed(char const *expr, char const *, char const *file, long line) { sim::on_assert("boost", expr, file, line); }
void assertion_failed_msg(char const *expr, char const *, char const *, char const *file, long line) { sim::on_assert("boost", expr, file, line); }
}

namespace {
void *sim_new(size_t n) {
  using sim::g;
  if (g.in_step && !g.quiet) sim::fail("allocation", "operation '%s' allocated %zu bytes with operator new", g.slot ? g.slot->op : "?", n);
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void *operator new(size_t n, std::align_val_t) { return sim_new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }

namespace sim {
Sim g;
ProbeTable *g_probes;
int Probe::reg(const char *name) {
  ProbeTable &t = *g_probes;
  while (__sync_lock_test_and_set(&t.lock, 1)) {}
  int r = -1;
  for (int i = 0; i < t.n && r < 0; ++i) if (!strncmp(t.name[i], name, sizeof t.name[i] - 1)) r = i;
  if (r < 0) {
    if (t.n >= NPROBE - 1) r = NPROBE - 1;
    else { r = t.n; strncpy(t.name[r], name, sizeof t.name[r] - 1); t.n = r + 1; }
  }
  __sync_lock_release(&t.lock);
  return r;
}
vec<CfgEntry> &registry() { static vec<CfgEntry> r; return r; }

void log(const char *fmt, ...) {
  char buf[600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  u64 h = g.hash;
  for (const char *p = buf; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  g.hash = h * 3 + 1;
  if (g.slot) g.slot->hash = g.hash;
  if (g.verbose) { fputs(buf, stderr); fputc('\n', stderr); }
}
void fail(const char *tag, const char *fmt, ...) {
  g.in_step = false;
  char buf[1300];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (g.slot) {
    snprintf(g.slot->tag, sizeof g.slot->tag, "%s", tag);
    snprintf(g.slot->msg, sizeof g.slot->msg, "%s", buf);
    g.slot->state = 2;
  }
  if (g.verbose) fprintf(stderr, "VIOLATED [%s] %s\n", tag, buf);
  _exit(2);
}
void on_assert(const char *kind, const char *expr, const char *file, long line) {
  const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
  if (g.expect_assert) {
    { Quiet q; g.assert_text = std::string(kind) + ": " + expr; }
    siglongjmp(g.assert_jmp, 1);
  }
  fail("assert", "%s assertion raised by the library: %s (%s:%ld)", kind, expr, b, line);
}
std::string fmt_ids(const vec<int> &v) {
  Quiet q;
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ' '; s += std::to_string(v[i]); if (i > 60) { s += " ..."; break; } }
  return s + "]";
}

// ---------------------------------------------------------------- arena
static void arena_map() {
  static bool done = false;
  if (done) return;
  done = true;
  for (u64 b : {ARENA_A, ARENA_B}) {
    void *p = mmap((void *)b, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)b) { perror("mmap arena"); _exit(9); }
  }
  mprotect((void *)ARENA_B, ARENA_SIZE, PROT_NONE);
  g.base = (char *)ARENA_A;
  g.shadow = (unsigned char *)calloc(ARENA_SIZE >> 3, 1);
}
void arena_reset() {
  arena_map();
  if (g.base != (char *)ARENA_A) {
    mprotect((void *)ARENA_B, ARENA_SIZE, PROT_NONE);
    mprotect((void *)ARENA_A, ARENA_SIZE, PROT_READ | PROT_WRITE);
    g.base = (char *)ARENA_A;
  }
  size_t n = g.high; if (n > ARENA_SIZE) n = ARENA_SIZE;
  memset(g.base, FILL_FRESH, n);
  memset(g.shadow, 0, n >> 3);
  g.top = 4096;
  g.high = 8192; memset(g.base, FILL_FRESH, g.high);        // memory above is filled again when it is allocated
}
size_t arena_alloc(size_t n, size_t align) {
  size_t off = (g.top + align - 1) / align * align;
  if (off + n + 32 > ARENA_SIZE) fail("harness", "arena exhausted");
  g.top = off + n + 32;                       // 32-byte red zone of fresh fill
  if (g.top > g.high) { memset(g.base + g.high, FILL_FRESH, g.top - g.high); g.high = g.top; }
  return off;
}
void arena_relocate() {
  char *from = g.base, *to = (char *)(g.base == (char *)ARENA_A ? ARENA_B : ARENA_A);
  size_t n = (g.high + 4095) / 4096 * 4096;
  mprotect(to, ARENA_SIZE, PROT_READ | PROT_WRITE);
  memcpy(to, from, n);
  memset(from, 0x99, n);
  mprotect(from, ARENA_SIZE, PROT_NONE);
  g.base = to;
}
void arena_protect(bool ro) {
  size_t n = (g.high + 4095) / 4096 * 4096;
  mprotect(g.base, n, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}

// ---------------------------------------------------------------- fibers
namespace {
enum { MAXF = 8, FSTACK = 2 * 1024 * 1024 };
struct FiberRt {
  ucontext_t main, ctx[MAXF];
  bool done[MAXF];
  int n = 0, cur = -1;
  u64 gap = 0;
  const vec<u32> *sched = nullptr;
  size_t *pos = nullptr;
  u64 hash = 0, nswitch = 0;
  void (*body)(void *, int) = nullptr; void *arg = nullptr;
  char *stacks = nullptr;
} F;
int pick_next(u32 e) {
  int r[MAXF], k = 0;
  for (int i = 0; i < F.n; ++i) if (!F.done[i]) r[k++] = i;
  return k ? r[e % k] : -1;
}
void next_decision(u32 &who) {
  if (*F.pos < F.sched->size()) {
    u32 e = (*F.sched)[(*F.pos)++];
    who = e & 7; F.gap = 1 + ((e >> 3) & 63);
  } else { who = 0; F.gap = ~0ull; }
}
void entry(int i) {
  F.body(F.arg, i);
  F.done[i] = true;
  swapcontext(&F.ctx[i], &F.main);
}
}
void fiber_yield(int site) {
  if (!g.in_fibers || g.quiet || F.cur < 0) return;
  if (g.slot) ++g.slot->yields;
  if (F.gap == ~0ull) return;
  if (--F.gap) return;
  u32 who; next_decision(who);
  int nx = pick_next(who);
  F.hash = (F.hash ^ (u64)(nx * 131 + site)) * 1099511628211ull;
  if (nx == F.cur) return;
  int old = F.cur;
  ++F.nswitch;
  if (g.slot) ++g.slot->switches;
  F.cur = nx; g.cur_fiber = nx;
  bool q = g.quiet; const char *nf = g.nofunctor;
  swapcontext(&F.ctx[old], &F.ctx[nx]);
  g.quiet = q; g.nofunctor = nf;
}
void Fibers::run(int n, void (*body)(void *, int), void *arg, const vec<u32> &sched, size_t &pos) {
  if (!F.stacks) {
    F.stacks = (char *)mmap(nullptr, MAXF * FSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (F.stacks == MAP_FAILED) fail("harness", "fiber stacks");
  }
  if (n > MAXF) n = MAXF;
  F.n = n; F.sched = &sched; F.pos = &pos; F.body = body; F.arg = arg; F.hash = 77; F.nswitch = 0;
  for (int i = 0; i < n; ++i) {
    F.done[i] = false;
    getcontext(&F.ctx[i]);
    memset(F.stacks + (i + 1) * (size_t)FSTACK - 12288, 0xA5, 12288);
    F.ctx[i].uc_stack.ss_sp = F.stacks + i * FSTACK;
    F.ctx[i].uc_stack.ss_size = FSTACK;
    F.ctx[i].uc_link = &F.main;
    makecontext(&F.ctx[i], (void (*)())entry, 1, i);
  }
  g.in_fibers = true;
  if (g.slot) ++g.slot->fiber_batches;
  for (;;) {
    u32 who; next_decision(who);
    int nx = pick_next(who);
    if (nx < 0) break;
    F.cur = nx; g.cur_fiber = nx;
    F.hash = (F.hash ^ (u64)(nx * 131 + 99)) * 1099511628211ull;
    swapcontext(&F.main, &F.ctx[nx]);
  }
  g.in_fibers = false; F.cur = -1; g.cur_fiber = -1;
  if (F.nswitch) g.scheds.add(F.hash);
  lognum(F.hash);
}

// ---------------------------------------------------------------- running one trace
static void reset_run(Slot *s) {
  g.slot = s; g.armed = F_NONE; g.fired = false; g.quiet = false; g.nofunctor = nullptr; g.expect_assert = false; g.in_step = false; g.copy_ok = 0;
  g.in_fibers = false; g.cur_fiber = -1; g.derefs = 0;
  memset(g.ncalls, 0, sizeof g.ncalls);
  g.hash = 1469598103934665603ull;
  s->step = 0; s->hash = g.hash; s->op[0] = 0; s->tag[0] = 0; s->msg[0] = 0;
  arena_reset();
}
static const CfgEntry *find_cfg(const std::string &n) {
  for (auto &e : registry()) if (n == e.name) return &e;
  return nullptr;
}
static Trace make_trace(const std::string &prop, u64 seed, u64 idx) {
  auto &R = registry();
  const CfgEntry &e = R[idx % R.size()];
  Trace t; t.cfg = e.name; t.mode = prop; t.seed = mix(mix(seed, hash_str(prop.c_str())), idx);
  Rng r(t.seed);
  Mode m{prop};
  e.gen(r, m, t);
  return t;
}
// Every run starts over the same stale stack contents, so that even code which
// reads an uninitialised local repeats exactly.
__attribute__((noinline)) static void clobber_stack() {
  volatile char b[48 * 1024];
  memset((void *)b, 0xA5, sizeof b);
  asm volatile("" ::"r"(b) : "memory");
}
static void exec_trace(const Trace &t, Slot *s) {
  const CfgEntry *e = find_cfg(t.cfg);
  if (!e) { fprintf(stderr, "unknown config %s\n", t.cfg.c_str()); _exit(9); }
  reset_run(s);
  s->state = 1;
  clobber_stack();
  e->run(t);
  g.in_step = false;
  s->state = 0;
  ++s->runs;
}
static void on_vtalrm(int) {
  if (g.slot && g.slot->state == 1) {
    snprintf(g.slot->tag, sizeof g.slot->tag, "hang");
    snprintf(g.slot->msg, sizeof g.slot->msg, "operation '%s' did not finish within its step (CPU-time watchdog)", g.slot->op);
    g.slot->state = 2;
  }
  _exit(2);
}
// runs with thousands of elements take longer
static double wd_scale(const Trace &t) { return !t.params.empty() && t.params[0] >= 3000 ? 16 : 1; }
static void watchdog(double sec) {
  struct itimerval tv; memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = (long)sec; tv.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
template <class T> static T *shared(size_t n = 1) {
  void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(9); }
  return (T *)p;
}
static void child_setup() {
  signal(SIGVTALRM, on_vtalrm);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  struct rlimit as = {8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &as);
}

struct Outcome { bool bad = false; std::string tag, msg, op; u64 hash = 0; u32 step = 0; };
static Outcome read_outcome(Slot *s, int status) {
  Outcome o;
  o.hash = s->hash; o.step = s->step; o.op = s->op;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return o;
  o.bad = true;
  if (s->state == 2) { o.tag = s->tag; o.msg = s->msg; }
  else if (WIFSIGNALED(status)) {
    int sg = WTERMSIG(status);
    o.tag = std::string("crash-") + (sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGBUS ? "SIGBUS" : sg == SIGFPE ? "SIGFPE" : sg == SIGILL ? "SIGILL" : ("SIG" + std::to_string(sg)));
    o.msg = "the process died with " + o.tag + " inside operation '" + o.op + "'";
  } else { o.tag = "harness"; o.msg = "child exited with status " + std::to_string(WEXITSTATUS(status)); }
  return o;
}
static Slot *g_probe_slot;
static Outcome run_child(const Trace &t, double wd) {
  Slot *s = g_probe_slot;
  memset((void *)s, 0, sizeof *s);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { child_setup(); int fd = -1; (void)fd; g.states.bits = nullptr; g.scheds.bits = nullptr; watchdog(wd * wd_scale(t)); exec_trace(t, s); _exit(0); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return read_outcome(s, st);
}
static bool same_class(const Outcome &a, const std::string &tag) {
  if (!a.bad) return false;
  if (a.tag == tag) return true;
  return a.tag.compare(0, 6, "crash-") == 0 && tag.compare(0, 6, "crash-") == 0;
}
static Trace minimise(Trace t, const Outcome &o0, int &evals, double budget_s) {
  double t0 = now();
  evals = 0;
  double wd = o0.tag == "hang" ? 0.5 : 2.0;
  auto bad = [&](const Trace &c) { if (now() - t0 > budget_s || evals > 4000) return false; ++evals; return same_class(run_child(c, wd), o0.tag); };
  if (o0.step + 1 < t.steps.size()) { Trace c = t; c.steps.resize(o0.step + 1); if (bad(c)) t = c; }
  for (int round = 0; round < 3; ++round) {
    bool changed = false;
    for (size_t chunk = std::max<size_t>(1, t.steps.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= t.steps.size();) {
        Trace c = t; c.steps.erase(c.steps.begin() + i, c.steps.begin() + i + chunk);
        if (bad(c)) { t = c; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < t.steps.size(); ++i) {
      auto tryset = [&](u32 Step::*f, u32 v) { if (t.steps[i].*f == v) return; Trace c = t; c.steps[i].*f = v; if (bad(c)) { t = c; changed = true; } };
      if (t.steps[i].fk) { Trace c = t; c.steps[i].fk = 0; c.steps[i].fn = 0; if (bad(c)) { t = c; changed = true; } }
      if (t.steps[i].fk && t.steps[i].fn > 1) tryset(&Step::fn, 1);
      for (auto f : {&Step::a, &Step::b, &Step::c, &Step::d}) { tryset(f, 0); if (t.steps[i].*f > 1) tryset(f, t.steps[i].*f % 8); if (t.steps[i].*f > 1) tryset(f, 1); }
    }
    if (!t.sched.empty()) {
      { Trace c = t; c.sched.clear(); if (bad(c)) { t = c; changed = true; } }
      for (size_t chunk = std::max<size_t>(1, t.sched.size() / 2); chunk >= 1 && !t.sched.empty(); chunk /= 2) {
        for (size_t i = 0; i + chunk <= t.sched.size();) {
          Trace c = t; c.sched.erase(c.sched.begin() + i, c.sched.begin() + i + chunk);
          if (bad(c)) { t = c; changed = true; } else i += chunk;
        }
        if (chunk == 1) break;
      }
    }
    if (!changed) break;
  }
  return t;
}
static void write_replay(const std::string &path, const Trace &t, const Outcome &o) {
  std::ofstream f(path);
  const CfgEntry *e = find_cfg(t.cfg);
  f << "# minimised simulation trace; replay with: python3 /verif/bin/check.py --replay <this file>\n";
  f << "prop " << t.mode << "\ncfg " << t.cfg << "\nseed " << t.seed << "\nparams";
  for (u32 p : t.params) f << ' ' << p;
  f << "\n";
  for (auto &s : t.steps) {
    f << "step " << s.op << ' ' << s.a << ' ' << s.b << ' ' << s.c << ' ' << s.d << ' ' << s.fk << ' ' << s.fn << "   # " << e->opname(s.op);
    if (s.fk) f << " with fault " << fault_name(s.fk) << " at call " << s.fn;
    f << "\n";
  }
  f << "sched";
  for (u32 p : t.sched) f << ' ' << p;
  f << "\ntag " << o.tag << "\nhash " << o.hash << "\n";
  std::string m = o.msg; for (char &c : m) if (c == '\n') c = ' ';
  f << "msg " << m << "\n";
}
static bool read_replay(const std::string &path, Trace &t, Outcome &o) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    size_t hpos = line.find('#');
    std::string k = line.substr(0, line.find(' '));
    std::string rest = line.size() > k.size() ? line.substr(k.size() + 1) : "";
    if (k == "step" && hpos != std::string::npos) rest = line.substr(5, hpos - 5);
    std::istringstream is(rest);
    if (k == "prop") is >> t.mode;
    else if (k == "cfg") is >> t.cfg;
    else if (k == "seed") is >> t.seed;
    else if (k == "params") { u32 v; while (is >> v) t.params.push_back(v); }
    else if (k == "sched") { u32 v; while (is >> v) t.sched.push_back(v); }
    else if (k == "step") { Step s; is >> s.op >> s.a >> s.b >> s.c >> s.d >> s.fk >> s.fn; t.steps.push_back(s); }
    else if (k == "tag") is >> o.tag;
    else if (k == "hash") is >> o.hash;
    else if (k == "msg") o.msg = rest;
  }
  return true;
}
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static u64 popcount_map(const Bitmap &b) { u64 n = 0; for (u64 i = 0; i <= b.mask / 8; ++i) n += __builtin_popcount(b.bits[i]); return n; }
static std::string trace_text(const Trace &t) {
  const CfgEntry *e = find_cfg(t.cfg);
  std::ostringstream o; o << t.cfg << " seed=" << t.seed << " steps=" << t.steps.size() << ":";
  for (size_t i = 0; i < t.steps.size() && i < 14; ++i) { o << ' ' << e->opname(t.steps[i].op) << '(' << t.steps[i].a << ',' << t.steps[i].b << ',' << t.steps[i].c << ',' << t.steps[i].d << ')'; if (t.steps[i].fk) o << '!' << fault_name(t.steps[i].fk) << '@' << t.steps[i].fn; }
  if (t.steps.size() > 14) o << " ...";
  if (!t.sched.empty()) o << " sched[" << t.sched.size() << "]";
  return o.str();
}

struct Opt { std::string prop = "C00", replay, result, replaydir = ".", families; u64 seed = 1, runs = 1000; int workers = 8; double cap = 600; long one = -1; bool verbose = false; u64 dup = 64; };

static int do_replay(const Opt &o) {
  Trace t; Outcome want;
  if (!read_replay(o.replay, t, want)) { fprintf(stderr, "cannot read %s\n", o.replay.c_str()); return 9; }
  if (!find_cfg(t.cfg)) { fprintf(stderr, "replay: config %s is not in this binary\n", t.cfg.c_str()); return 9; }
  g.verbose = o.verbose;
  Outcome got = run_child(t, 4.0);
  printf("replay: %s tag=%s hash=%llu %s\n", got.bad ? "VIOLATED" : "held", got.tag.c_str(), (unsigned long long)got.hash, got.msg.c_str());
  if (!got.bad) return 0;
  return got.tag == want.tag && got.hash == want.hash ? 1 : 3;
}

// One pass over [from,runs) with W workers. Returns index of a violating run or -1.
static long pass(const Opt &o, int W, u64 from, u64 runs, Slot *slots, u64 *hashes, u64 nh, volatile u64 *stopflag, Outcome &vo, double deadline, bool record) {
  vec<pid_t> pid(W, -1);
  fflush(nullptr);
  for (int w = 0; w < W; ++w) {
    memset((void *)&slots[w], 0, sizeof(Slot));
    pid_t p = fork();
    if (p == 0) {
      child_setup();
      if (!record) { g.states.bits = nullptr; g.scheds.bits = nullptr; }
      Slot *s = &slots[w];
      for (u64 i = from + w; i < runs; i += W) {
        if (*stopflag <= i) break;
        if ((i / W) % 64 == 0 && now() > deadline) break;
        s->run = i;
        Trace t = make_trace(o.prop, o.seed, i);
        watchdog(2.5 * wd_scale(t));
        exec_trace(t, s);
        watchdog(0);
        if (i < nh) hashes[i] = g.hash ? g.hash : 1;
      }
      _exit(0);
    }
    pid[w] = p;
  }
  long best = -1;
  for (int left = W; left > 0;) {
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < W; ++i) if (pid[i] == p) w = i;
    if (w < 0) continue;
    --left; pid[w] = -1;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      u64 idx = slots[w].run;
      if (best < 0 || (long)idx < best) { best = (long)idx; vo = read_outcome(&slots[w], st); *stopflag = idx; }
    }
  }
  return best;
}
} // namespace sim

using namespace sim;
int main(int argc, char **argv) {
  // Best effort: no address randomisation, so that even a stray read of an
  // uninitialised stack word repeats.  (The arena is at a fixed address anyway.)
  if (!getenv("SIM_REEXEC")) {
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  Opt o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") o.prop = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--runs") o.runs = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--cap") o.cap = atof(val().c_str());
    else if (a == "--replay") o.replay = val();
    else if (a == "--result") o.result = val();
    else if (a == "--replaydir") o.replaydir = val();
    else if (a == "--one") o.one = atol(val().c_str());
    else if (a == "--families") o.families = val();
    else if (a == "--dup") o.dup = strtoull(val().c_str(), 0, 10);
    else if (a == "-v") o.verbose = true;
    else if (a == "--list") { for (auto &e : registry()) printf("%s %s\n", e.name, e.family); return 0; }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 9; }
  }
  std::sort(registry().begin(), registry().end(), [](const CfgEntry &a, const CfgEntry &b) { return strcmp(a.name, b.name) < 0; });
  if (!o.families.empty()) {
    std::string fl = "," + o.families + ",";
    auto &R = registry();
    R.erase(std::remove_if(R.begin(), R.end(), [&](const CfgEntry &e) { return fl.find(std::string(",") + e.family + ",") == std::string::npos && fl.find(std::string(",") + e.name + ",") == std::string::npos; }), R.end());
  }
  if (registry().empty()) { fprintf(stderr, "no configurations linked\n"); return 9; }
  g_probes = shared<ProbeTable>();
  g_probe_slot = shared<Slot>();
  arena_reset();
  if (!o.replay.empty()) return do_replay(o);
  double t0 = now();
  int W = o.workers;
  Slot *slots = shared<Slot>(W + 8);
  u64 *hashes = shared<u64>(o.dup + 1), *hashes2 = shared<u64>(o.dup + 1);
  volatile u64 *stop = shared<u64>();
  g.states.mask = (1ull << 27) - 1; g.states.bits = shared<unsigned char>((g.states.mask + 1) / 8);
  g.scheds.mask = (1ull << 24) - 1; g.scheds.bits = shared<unsigned char>((g.scheds.mask + 1) / 8);
  if (o.one >= 0) {
    Trace t = make_trace(o.prop, o.seed, (u64)o.one);
    fprintf(stderr, "%s\n", trace_text(t).c_str());
    g.verbose = o.verbose;
    Outcome r = run_child(t, 4.0);
    printf("%s tag=%s hash=%llu step=%u %s\n", r.bad ? "VIOLATED" : "held", r.tag.c_str(), (unsigned long long)r.hash, r.step, r.msg.c_str());
    return r.bad;
  }
  // Warm-up pass: the first dup runs with a different worker count, to compare
  // event-log hashes against the main pass (determinism evidence).
  Outcome vo;
  *stop = ~0ull;
  u64 nd = std::min(o.dup, o.runs);
  double deadline = t0 + o.cap;
  long bad = pass(o, std::max(1, W / 2 - 1), 0, nd, slots, hashes2, nd, stop, vo, deadline, false);
  Slot total; memset((void *)&total, 0, sizeof total);
  double search0 = now(), search_s = 0;
  int rc = 0, unrepeatable = 0;
  std::string replay_path, verdict = "held";
  int evals = 0; size_t nsteps_min = 0; Outcome fin;
  Trace orig;
  u64 from = 0;
  // A failing run counts only when it repeats (twice from the same seed, and its
  // minimised trace in a fresh process); otherwise the search goes on behind it.
  for (int attempt = 0;; ++attempt) {
    if (bad < 0) {
      *stop = ~0ull;
      bad = pass(o, W, from, o.runs, slots, hashes, nd, stop, vo, deadline, true);
      for (int w = 0; w < W; ++w) {
        Slot &s = slots[w];
        total.runs += s.runs; total.steps += s.steps; total.op_done += s.op_done; total.op_skipped += s.op_skipped;
        for (int k = 0; k < F_N; ++k) { total.armed[k] += s.armed[k]; total.fired[k] += s.fired[k]; total.calls[k] += s.calls[k]; }
        total.switches += s.switches; total.yields += s.yields; total.fiber_batches += s.fiber_batches;
        for (int k = 0; k < NPROBE; ++k) total.probes[k] += s.probes[k];
      }
    }
    search_s = now() - search0;
    if (bad < 0) break;
    orig = make_trace(o.prop, o.seed, (u64)bad);
    Outcome a = run_child(orig, 4.0), b = run_child(orig, 4.0);
    bool ok = a.bad && b.bad && a.tag == b.tag && a.hash == b.hash;
    if (vo.tag == "harness") { fprintf(stderr, "harness error in run %ld: %s\n", bad, vo.msg.c_str()); rc = 9; verdict = "harness-error"; break; }
    if (!ok) {
      fprintf(stderr, "run %ld failed (%s: %s) but does not repeat: [%s %llu] [%s %llu]\n", bad, vo.tag.c_str(), vo.msg.c_str(), a.tag.c_str(), (unsigned long long)a.hash, b.tag.c_str(), (unsigned long long)b.hash);
      rc = 9; verdict = "unrepeatable";
    } else {
      Trace m = minimise(orig, a, evals, 45.0);
      for (int use_orig = 0; use_orig < 2; ++use_orig) {
        if (use_orig) m = orig;
        fin = run_child(m, 4.0);
        Outcome fin2 = run_child(m, 4.0);
        if (!fin.bad || fin.hash != fin2.hash || fin.tag != fin2.tag) { rc = 9; verdict = "unrepeatable"; continue; }
        nsteps_min = m.steps.size();
        replay_path = o.replaydir + "/" + o.prop + "-" + std::to_string(o.seed) + "-" + std::to_string(bad) + "-" + m.cfg + ".trace";
        write_replay(replay_path, m, fin);
        // replay in a fresh process
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
          int fd = dup(1); (void)fd; freopen("/dev/null", "w", stdout);
          unsetenv("SIM_REEXEC");
          execl("/proc/self/exe", "simrun", "--replay", replay_path.c_str(), (char *)nullptr);
          _exit(9);
        }
        int st = 0; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { rc = 1; verdict = "violated"; break; }
        fprintf(stderr, "replay of %s in a fresh process did not reproduce (status %d)\n", replay_path.c_str(), st); rc = 9; verdict = "unreplayable";
      }
      if (rc == 1) break;
    }
    ++unrepeatable;
    if (attempt >= 6 || now() > deadline) break;
    from = (u64)bad + 1; bad = -1;
  }
  u64 diverged = 0, compared = 0;
  if (rc == 0) {
    for (u64 i = 0; i < nd; ++i) if (hashes[i] && hashes2[i]) { ++compared; if (hashes[i] != hashes2[i]) { ++diverged; if (diverged < 4) fprintf(stderr, "divergence at run %llu (%s)\n", (unsigned long long)i, make_trace(o.prop, o.seed, i).cfg.c_str()); } }
    if (diverged) { fprintf(stderr, "NON-DETERMINISM: %llu of %llu compared runs differ between two executions\n", (unsigned long long)diverged, (unsigned long long)compared); rc = 9; verdict = "nondeterministic"; }
  }
  if (!o.result.empty()) {
    std::ofstream f(o.result);
    f << "{\n\"verdict\": \"" << verdict << "\",\n\"runs\": " << total.runs << ",\n\"steps\": " << total.steps << ",\n\"ops_done\": " << total.op_done << ",\n\"ops_skipped\": " << total.op_skipped
      << ",\n\"search_s\": " << search_s << ",\n\"wall_s\": " << now() - t0 << ",\n\"workers\": " << W
      << ",\n\"distinct_states\": " << popcount_map(g.states) << ",\n\"distinct_schedules\": " << popcount_map(g.scheds)
      << ",\n\"fiber_batches\": " << total.fiber_batches << ",\n\"yields\": " << total.yields << ",\n\"preemptions\": " << total.switches
      << ",\n\"determinism_compared\": " << compared << ",\n\"determinism_diverged\": " << diverged;
    f << ",\n\"faults_armed\": {"; for (int k = 1; k < F_N; ++k) f << (k > 1 ? ", " : "") << "\"" << fault_name(k) << "\": " << total.armed[k];
    f << "},\n\"faults_fired\": {"; for (int k = 1; k < F_N; ++k) f << (k > 1 ? ", " : "") << "\"" << fault_name(k) << "\": " << total.fired[k];
    f << "},\n\"functor_calls\": {"; for (int k = 1; k < F_N; ++k) f << (k > 1 ? ", " : "") << "\"" << fault_name(k) << "\": " << total.calls[k];
    f << "},\n\"probes\": {"; bool first = true;
    for (int k = 0; k < g_probes->n; ++k) { f << (first ? "" : ", ") << "\"" << g_probes->name[k] << "\": " << total.probes[k]; first = false; }
    f << "},\n\"configs\": ["; first = true;
    for (auto &e : registry()) { f << (first ? "" : ", ") << "\"" << e.name << "\""; first = false; }
    f << "],\n\"samples\": ["; first = true;
    for (u64 i = 0; i < 6 && i < o.runs; ++i) { u64 idx = i * (registry().size() / 6 + 1) % std::max<u64>(1, o.runs); f << (first ? "" : ", ") << "\"" << jesc(trace_text(make_trace(o.prop, o.seed, idx))) << "\""; first = false; }
    f << "],\n\"violation\": ";
    if (verdict == "violated") f << "{\"tag\": \"" << jesc(fin.tag) << "\", \"msg\": \"" << jesc(fin.msg) << "\", \"cfg\": \"" << orig.cfg << "\", \"op\": \"" << jesc(fin.op) << "\", \"run\": " << bad << ", \"orig_steps\": " << orig.steps.size() << ", \"min_steps\": " << nsteps_min << ", \"minimise_evals\": " << evals << ", \"replay\": \"" << jesc(replay_path) << "\"}";
    else f << "null";
    f << "\n}\n";
  }
  if (rc == 1) printf("violation: [%s] %s (config %s, run %ld, %zu -> %zu steps)\n", fin.tag.c_str(), fin.msg.c_str(), orig.cfg.c_str(), bad, orig.steps.size(), nsteps_min);
  return rc;
}

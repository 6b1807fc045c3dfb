// Core of the deterministic simulator: PRNG, traces, fault points, cooperative
// fibers, the fixed-address arena, the shared event log and failure reporting.
//
// Everything a run does is a pure function of its Trace and of the code under
// test.  A Trace is generated from one integer seed by an engine's generator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <algorithm>
#include <new>
#include <utility>
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>
#include <setjmp.h>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;

// The harness's own memory comes straight from malloc, so that a call of operator new inside a library
// call is the library's (see operator new in sim.cpp).
template <class T> struct HAlloc {
  typedef T value_type;
  HAlloc() {}
  template <class U> HAlloc(const HAlloc<U> &) {}
  T *allocate(size_t n) { void *p = malloc(n * sizeof(T)); if (!p) abort(); return (T *)p; }
  void deallocate(T *p, size_t) { free(p); }
  template <class U> bool operator==(const HAlloc<U> &) const { return true; }
  template <class U> bool operator!=(const HAlloc<U> &) const { return false; }
};
template <class T> using vec = std::vector<T, HAlloc<T>>;
// std::stable_sort would use operator new
template <class It, class Less> void stable_insertion_sort(It b, It e, Less less) {
  if (b == e) return;
  if (e - b > 64) {                            // merge sort above that size
    It h = b + (e - b) / 2;
    stable_insertion_sort(b, h, less); stable_insertion_sort(h, e, less);
    vec<typename std::iterator_traits<It>::value_type> t(b, h);
    auto x = t.begin(); It y = h, o = b;
    while (x != t.end()) if (y != e && less(*y, *x)) *o++ = *y++; else *o++ = *x++;
    return;
  }
  for (It i = b + 1; i != e; ++i) { auto v = *i; It j = i; while (j != b && less(v, *(j - 1))) { *j = *(j - 1); --j; } *j = v; }
}

// membership in a list of element ids
struct IdSet {
  vec<char> b;
  explicit IdSet(const vec<int> &v) { for (int i : v) { if ((size_t)i >= b.size()) b.resize((size_t)i + 1, 0); b[(size_t)i] = 1; } }
  bool has(int i) const { return i >= 0 && (size_t)i < b.size() && b[(size_t)i]; }
};

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u32 below(u32 n) { return n ? (u32)((next() >> 16) % n) : 0; }
  u32 range(u32 lo, u32 hi) { return lo + below(hi - lo + 1); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull)); return r.next(); }
inline u64 hash_str(const char *s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }

// ---------------------------------------------------------------- traces
enum FaultKind { F_NONE, F_CMP, F_HASH, F_EQ, F_PRIO, F_PRED, F_CLONE, F_FCOPY, F_N };
inline const char *fault_name(u32 k) {
  static const char *n[] = {"none", "compare_throws", "hash_throws", "equal_throws", "priority_throws", "predicate_throws", "clone_alloc_fails", "functor_copy_throws"};
  return k < F_N ? n[k] : "?";
}
struct Fault { int kind; };   // the injected exception

struct Step {
  u32 op = 0, a = 0, b = 0, c = 0, d = 0;
  u32 fk = 0, fn = 0;         // fault: kind, throw at the fn-th call of it
};
struct Trace {
  std::string cfg, mode;
  u64 seed = 0;
  vec<u32> params;
  vec<Step> steps;
  vec<u32> sched;     // preemption decisions (readers / parallel actors)
  u32 param(size_t i, u32 dflt = 0) const { return i < params.size() ? params[i] : dflt; }
};

// ---------------------------------------------------------------- shared slot
enum { NPROBE = 192 };
struct Slot {
  volatile u64 run;           // index of the current run
  volatile u32 step;
  volatile u32 state;         // 0 idle, 1 running, 2 violation recorded
  volatile u64 hash;          // event-log hash so far
  char op[64];
  char tag[96];
  char msg[1400];
  u64 runs, steps, op_done, op_skipped;
  u64 armed[F_N], fired[F_N], calls[F_N];
  u64 switches, yields, fiber_batches;
  u64 probes[NPROBE];
  u64 foreign;
};

// bitmaps for counting distinct states / schedules (shared by all workers)
struct Bitmap { unsigned char *bits = nullptr; u64 mask = 0;
  void add(u64 h) { if (bits) { h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; u64 i = h & mask; __atomic_fetch_or(&bits[i >> 3], (unsigned char)(1u << (i & 7)), __ATOMIC_RELAXED); } }
};

struct Probe { static int reg(const char *name); };
struct ProbeTable { volatile int lock; volatile int n; char name[NPROBE][48]; };
extern ProbeTable *g_probes;                // shared by all worker processes

// ---------------------------------------------------------------- arena
// Every object the library sees (elements, hooks, containers, bucket arrays)
// lives in an arena at a fixed address, so addresses are part of the replay.
static const u64 ARENA_A = 0x100000000000ull, ARENA_B = 0x123456000000ull;
static const size_t ARENA_SIZE = 32u << 20;
enum { FILL_FRESH = 0xCD, FILL_DEAD = 0xDB };

struct Sim {
  Slot *slot = nullptr;
  Bitmap states, scheds;
  bool verbose = false;
  // arena
  char *base = nullptr;       // current mapping
  size_t top = 0;             // bump pointer
  size_t high = 0;
  // faults
  u32 armed = F_NONE, countdown = 0;
  bool fired = false;
  u64 ncalls[F_N] = {};
  bool quiet = false;         // inside an oracle: no faults, no yields
  // log
  u64 hash = 0;
  // nothrow region: any functor call is a violation
  const char *nofunctor = nullptr;
  unsigned char *shadow = nullptr;   // per 8 bytes of arena: 0 usable, else SH_*
  int copy_ok = 0;            // >0: the harness copies an element
  bool in_step = false;       // operation under way: operator new is a violation
  // expected assertions
  bool expect_assert = false;
  sigjmp_buf assert_jmp;
  std::string assert_text;
  // fiber hooks
  bool in_fibers = false;
  int cur_fiber = -1;
  u64 derefs = 0;
};
extern Sim g;

[[noreturn]] void fail(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void lognum(u64 v) { g.hash = (g.hash ^ v) * 1099511628211ull + 0x9E37; if (g.slot) g.slot->hash = g.hash; }
void fiber_yield(int site);

#define SIM_PROBE(name) do { static int pi_ = ::sim::Probe::reg(name); if (::sim::g.slot) ++::sim::g.slot->probes[pi_]; } while (0)
#define SIM_CHECK(cond, tag, ...) do { if (!(cond)) ::sim::fail(tag, __VA_ARGS__); } while (0)

// Called by every user functor of the simulation.
inline void fcall(int kind) {
  if (g.quiet) return;
  if (g.nofunctor) fail("functor-called", "user functor kind %s called inside %s", fault_name(kind), g.nofunctor);
  ++g.ncalls[kind];
  if (g.slot) ++g.slot->calls[kind];
  if (g.in_fibers) { fiber_yield(kind); return; }
  if (g.ncalls[kind] > 20000000) fail("hang", "more than 20000000 calls of functor %s in one run", fault_name(kind));
  if (g.armed == (u32)kind && --g.countdown == 0) {
    g.armed = F_NONE; g.fired = true;
    if (g.slot) ++g.slot->fired[kind];
    log("  fault %s fired", fault_name(kind));
    throw Fault{kind};
  }
}
// Copying a user functor: only throws when that fault is armed.
inline void fcopy() {
  if (g.quiet || g.in_fibers) return;
  ++g.ncalls[F_FCOPY];
  if (g.armed == (u32)F_FCOPY && --g.countdown == 0) {
    g.armed = F_NONE; g.fired = true;
    if (g.slot) ++g.slot->fired[F_FCOPY];
    log("  fault %s fired", fault_name(F_FCOPY));
    throw Fault{F_FCOPY};
  }
}
struct Quiet { bool old; Quiet() : old(g.quiet) { g.quiet = true; } ~Quiet() { g.quiet = old; } };
struct NoFunctor { const char *old; explicit NoFunctor(const char *w) : old(g.nofunctor) { g.nofunctor = w; } ~NoFunctor() { g.nofunctor = old; } };

// ---------------------------------------------------------------- arena API
void arena_reset();
size_t arena_alloc(size_t n, size_t align = 16);          // returns an offset
inline void *arena_at(size_t off) { return g.base + off; }
void arena_relocate();                                     // move everything to the other base
void arena_protect(bool readonly);
// Accesses through sim_ptr are checked against a shadow of the arena: destroyed elements, bucket arrays that
// were given up, and free elements that are not operands of the current step are off limits.
enum { SH_OK, SH_DEAD, SH_FREE, SH_BUCKETS };
inline void shadow_set(size_t off, size_t n, int v) { memset(g.shadow + (off >> 3), v, (n + 7) >> 3); }
inline const char *shadow_name(int v) { return v == SH_DEAD ? "a destroyed element" : v == SH_FREE ? "an element outside the containers that is no operand" : "a bucket array that was given up"; }
inline void shadow_check(const void *p) {
  size_t o = (size_t)((const char *)p - g.base);
  if (o < ARENA_SIZE && g.shadow[o >> 3] && g.in_step && !g.quiet) fail("bad-access", "operation '%s' accessed memory of %s", g.slot->op, shadow_name(g.shadow[o >> 3]));
}

// ---------------------------------------------------------------- assertion capture
void on_assert(const char *kind, const char *expr, const char *file, long line);
// Runs f expecting a library assertion; returns true if one was raised.
template <class F> bool expects_assert(F f) {
  bool raised = false;
  g.expect_assert = true;
  if (sigsetjmp(g.assert_jmp, 0) == 0) f();
  else raised = true;
  g.expect_assert = false;
  return raised;
}

// ---------------------------------------------------------------- fibers
struct Fibers {
  // Runs the n bodies interleaved; preemption decisions come from sched.
  static void run(int n, void (*body)(void *, int), void *arg, const vec<u32> &sched, size_t &pos);
};

// ---------------------------------------------------------------- registry
struct Mode { std::string prop; };
struct CfgEntry {
  const char *name;
  const char *family;
  void (*gen)(Rng &, const Mode &, Trace &);
  void (*run)(const Trace &);
  const char *(*opname)(u32);
};
vec<CfgEntry> &registry();
struct Registrar { Registrar(const CfgEntry &e) { registry().push_back(e); } };

// ---------------------------------------------------------------- misc helpers
std::string fmt_ids(const vec<int> &v);

// weighted op choice with swarm testing
struct OpMix {
  vec<u32> w;
  explicit OpMix(size_t n) : w(n, 0) {}
  void set(u32 op, u32 weight) { w[op] = weight; }
  void mul(u32 op, u32 f) { w[op] *= f; }
  void swarm(Rng &r) { // scale weights, switch some ops off
    for (auto &x : w) if (x) { u32 k = r.below(10); if (k < 2) x = 0; else if (k < 4) x *= 4; }
    u32 s = 0; for (auto x : w) s += x; if (!s) for (auto &x : w) x = 1;
  }
  u32 pick(Rng &r) const { u32 s = 0; for (auto x : w) s += x; u32 k = r.below(s); for (size_t i = 0; i < w.size(); ++i) { if (k < w[i]) return (u32)i; k -= w[i]; } return 0; }
};
} // namespace sim

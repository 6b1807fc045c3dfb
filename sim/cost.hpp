// Work clock of the simulation: the cost of an operation is the number of link accesses (through the
// simulator's pointer type) and of functor calls it makes.  The cost engines drive containers of up to some
// thousand elements through adversarial histories and compare every operation with its documented bound.
#pragma once
// no invariant assertions here: some of them walk whole ranges
#ifdef BOOST_INTRUSIVE_INVARIANT_ASSERT
#undef BOOST_INTRUSIVE_INVARIANT_ASSERT
#endif
#define BOOST_INTRUSIVE_INVARIANT_ASSERT(x) ((void)0)
#include "world.hpp"
#include <cmath>
#include <fcntl.h>
#include <iterator>
#include <boost/move/utility_core.hpp>

namespace sim {
struct CostFactor { const char *name; double a; };
// Largest observed (link accesses / (unit + 3)) per operation on the reference tree; the check allows SLACK times it.
inline const CostFactor *cost_table(int &n) {
  static const CostFactor t[] = {
#include "cost_table.inc"
  };
  n = (int)(sizeof t / sizeof t[0]);
  return t;
}
static const double COST_SLACK = 3.0, COST_FLOOR = 6.0;
inline double cost_factor(const char *name) {
  int n; const CostFactor *t = cost_table(n);
  for (int i = 0; i < n; ++i) if (!strcmp(t[i].name, name)) return t[i].a < COST_FLOOR ? COST_FLOOR : t[i].a;
  return getenv("SIM_COSTLOG") ? 1e18 : 0;
}
inline u64 work_calls() { return g.ncalls[F_CMP] + g.ncalls[F_HASH] + g.ncalls[F_EQ] + g.ncalls[F_PRIO] + g.ncalls[F_PRED]; }
struct Meter {
  u64 d, c, l = 0, f = 0;
  Meter() : d(g.derefs), c(work_calls()) {}
  void stop() { l = g.derefs - d; f = work_calls() - c; }
};
inline double lg(double n) { return std::log2(n + 2); }
inline void cost_links(const char *cfg, const char *name, double &a, u64 links, double unit, size_t n) {
  if (a < 0) a = cost_factor(name);
  double r = (double)links / (unit + 3);
  static int lf = getenv("SIM_COSTLOG") ? open(getenv("SIM_COSTLOG"), O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
  if (lf >= 0) { Quiet q; dprintf(lf, "%s %.3f %s n=%zu\n", name, r, cfg, n); }
  else if (r > COST_SLACK * a) fail("cost", "%s: %llu link accesses for a container of %zu elements, allowed %.0f", name, (unsigned long long)links, n, COST_SLACK * a * (unit + 3));
}
inline void cost_calls(const char *name, u64 calls, double allowed, size_t n) {
  if ((double)calls > allowed) fail("cost", "%s: %llu functor calls for a container of %zu elements, allowed %.0f", name, (unsigned long long)calls, n, allowed);
}
#define COST(NAME, M, UNIT, N) do { static double a_ = -1; cost_links(Cfg::name(), NAME, a_, (M).l, (double)(UNIT), (size_t)(N)); } while (0)
#define CALLS(NAME, M, ALLOWED, N) cost_calls(NAME, (M).f, (double)(ALLOWED), (size_t)(N))
// Measures one operation.
#define MEASURE(M, ...) Meter M; { __VA_ARGS__; } M.stop()

inline u32 cost_size(Rng &r) { u32 k = r.below(10); return k < 3 ? r.range(1, 10) : k < 7 ? r.range(11, 80) : k < 9 ? r.range(100, 400) : r.range(800, 1800); }
// Element bookkeeping shared by the cost engines: a pool with a stack of free elements.
template <class E> struct CostPool {
  Pool<E> P;
  vec<int> freel;
  void setup(int n, u64 seed, int keyrange, bool distinct) {
    P.setup(n);
    Rng r(seed);
    for (int i = 0; i < n; ++i) P.create(i, distinct ? 0 : (int)r.below((u32)keyrange), (int)r.below(1u << 30));
    for (int i = n; i-- > 0;) freel.push_back(i);
  }
  int get() { if (freel.empty()) return -1; int i = freel.back(); freel.pop_back(); P.owner[i] = 0; return i; }
  void put(int i) { freel.push_back(i); P.owner[i] = FREE; }
};
struct CostDisposer { u64 *n; template <class P> void operator()(P) const { ++*n; } };
} // namespace sim

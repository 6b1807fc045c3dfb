// Element pool, fault arming, disposers and cloners shared by the engines.
#pragma once
#include "elem.hpp"
#include "focus.hpp"
#include <cmath>

namespace sim {
enum { FREE = -1, DEAD = -2 };

// Arms a fault for the current step; disarmed on scope exit.
struct Arm {
  Arm(const Step &s, u32 allowed) {
    g.fired = false;
    if (s.fk && (allowed & (1u << s.fk))) {
      g.armed = s.fk; g.countdown = s.fn ? s.fn : 1;
      if (g.slot) ++g.slot->armed[s.fk];
    }
  }
  ~Arm() { g.armed = F_NONE; }
};
#define SIM_BIT(k) (1u << (k))
// Runs f, returns true if the injected exception came out of it.
template <class F> inline bool attempt(F f) {
  bool threw = false;
  try { f(); } catch (Fault &) { threw = true; }
  g.armed = F_NONE;
  if (threw != g.fired) fail("exception-swallowed", "the injected exception was thrown=%d but propagated=%d", (int)g.fired, (int)threw);
  return threw;
}

template <class E_> struct Pool {
  typedef E_ E;
  int N = 0;
  vec<size_t> off;
  vec<int> owner, key, prio;
  vec<int> tmpmark;
  void setup(int n) {
    N = n; off.resize(n); owner.assign(n, FREE); key.assign(n, 0); prio.assign(n, 0); tmpmark.assign(n, 0);
    for (int i = 0; i < n; ++i) off[i] = arena_alloc(sizeof(E), alignof(E) < 16 ? 16 : alignof(E));
  }
  E *ptr(int i) { return (E *)arena_at(off[i]); }
  E &e(int i) { return *ptr(i); }
  void shadow(int i, int v) { shadow_set(off[i], sizeof(E), v); }
  // Free elements may only be touched by a step that takes them as operands.
  void step_begin() { for (int i = 0; i < N; ++i) if (owner[i] == FREE) shadow(i, SH_FREE); }
  void step_end() { for (int i = 0; i < N; ++i) if (owner[i] != DEAD) shadow(i, SH_OK); }
  bool pick(int i) { if (owner[i] != FREE) return false; shadow(i, SH_OK); return true; }
  void create(int i, int k, int p) {
    shadow(i, SH_OK);
    E *x = new (arena_at(off[i])) E;
    x->id = i; x->magic = MAGIC; owner[i] = FREE;
    rekey(i, k, p);
  }
  void rekey(int i, int k, int p) { E &x = e(i); x.key = key[i] = k; x.prio = prio[i] = p; }
  void poison(int i) { memset(arena_at(off[i]), FILL_DEAD, sizeof(E)); owner[i] = DEAD; shadow(i, SH_DEAD); }
  void kill(int i) { shadow(i, SH_OK); ptr(i)->~E(); poison(i); }
  // the first free element at or after position start (dead ones are re-created)
  int take_free(u32 start) {
    for (int d = 0; d < N; ++d) {
      int i = (int)((start + d) % N);
      if (owner[i] == FREE) { shadow(i, SH_OK); return i; }
      if (owner[i] == DEAD) { create(i, key[i], prio[i]); return i; }
    }
    return -1;
  }
  int id_of(const E *p) {
    if (!p) return -1;
    size_t o = (size_t)((const char *)p - g.base);
    if ((const char *)p < g.base || o >= ARENA_SIZE) return -1;
    int lo = 0, hi = N;                        // off is ascending
    while (lo < hi) { int mid = (lo + hi) / 2; if (off[mid] < o) lo = mid + 1; else hi = mid; }
    return lo == N || off[lo] != o ? -1 : owner[lo] == DEAD ? -2 : lo;
  }
  // fast path: read the id through the object, then check that it is that object
  int id_fast(const E *p) {
    size_t o = (size_t)((const char *)p - g.base);
    if ((const char *)p < g.base || o >= ARENA_SIZE) return -1;
    if (N && (o < off[0] || o > off[N - 1])) return -1;
    int i = p->id;
    if (i >= 0 && i < N && off[i] == o) return i;
    return id_of(p);
  }
  void verify_data() {
    for (int i = 0; i < N; ++i) {
      if (owner[i] == DEAD) {
        const unsigned char *b = (const unsigned char *)arena_at(off[i]);
        for (size_t k = 0; k < sizeof(E); ++k) if (b[k] != FILL_DEAD) fail("write-after-dispose", "byte %zu of destroyed element %d was overwritten", k, i);
      } else {
        E &x = e(i);
        if (x.id != i || x.magic != MAGIC || x.key != key[i] || x.prio != prio[i]) fail("stray-write", "user data of element %d was modified", i);
      }
      const unsigned char *z = (const unsigned char *)arena_at(off[i]) + sizeof(E);
      for (size_t k = 0; k < 16; ++k) if (z[k] != FILL_FRESH) fail("stray-write", "memory behind element %d was modified", i);
    }
  }
};
// Stateful value traits: links live in a side table, found through the traits object.
enum { MAXTAB = 2560 };
template <class E, class NT> struct IndexTable { typename NT::node nodes[MAXTAB]; E *elems[MAXTAB]; };
template <class E, class NT> struct IndexVT {
  typedef NT node_traits;
  typedef typename NT::node_ptr node_ptr;
  typedef typename NT::const_node_ptr const_node_ptr;
  typedef E value_type;
  typedef E *pointer;
  typedef const E *const_pointer;
  typedef E &reference;
  typedef const E &const_reference;
  static const boost::intrusive::link_mode_type link_mode = boost::intrusive::safe_link;
  typedef IndexTable<E, NT> table;
  table *t;
  IndexVT() : t(nullptr) {}
  explicit IndexVT(table *x) : t(x) {}
  node_ptr to_node_ptr(E &v) const { need(); return node_ptr(t->nodes + v.id); }
  const_node_ptr to_node_ptr(const E &v) const { need(); return const_node_ptr(t->nodes + v.id); }
  pointer to_value_ptr(node_ptr n) const { need(); return t->elems[idx(n)]; }
  const_pointer to_value_ptr(const_node_ptr n) const { need(); return t->elems[idx(n)]; }
  size_t idx(const_node_ptr n) const { size_t i = (size_t)(n - t->nodes); if (i >= MAXTAB) fail("value-traits", "to_value_ptr called with a node that belongs to no element"); return i; }
  void need() const { if (!t) fail("value-traits", "stateful value traits lost their state"); }
};
// a header holder that keeps the header node outside the container object
template <class NP_> struct SideHeader {
  typedef NP_ node_ptr;
  typedef typename boost::intrusive::pointer_traits<node_ptr>::element_type node;
  typedef typename boost::intrusive::pointer_traits<node_ptr>::template rebind_pointer<const node>::type const_node_ptr;
  node *n;
  SideHeader() { n = new (HAlloc<node>().allocate(1)) node; }
  SideHeader(const SideHeader &) = delete;
  ~SideHeader() { n->~node(); HAlloc<node>().deallocate(n, 1); }
  const_node_ptr get_node() const { return const_node_ptr(n); }
  node_ptr get_node() { return node_ptr(n); }
};
inline void expect_ids(const vec<int> &got, const vec<int> &want, const char *tag, const char *what) {
  if (got != want) fail(tag, "%s: got %s, expected %s", what, fmt_ids(got).c_str(), fmt_ids(want).c_str());
}
// Every overload of the end-point accessors must agree with the first and last element (null when empty).
template <class X, class E> void check_ends(X &x, const E *first, const E *last, int ci) {
  const X &cx = x;
  auto bad = [&](const char *w) { fail("ends", "container %d: %s is wrong", ci, w); };
  bool none = !first;
  if ((x.begin() == x.end()) != none || (cx.begin() == cx.end()) != none || (cx.cbegin() == cx.cend()) != none) bad("begin() == end()");
  if ((x.begin() != x.end()) == none || (cx.begin() != cx.end()) == none || x.cbegin() != cx.begin() || x.cend() != cx.end()) bad("begin() != end()");
  if (cx.begin() != x.begin() || cx.end() != x.end()) bad("the const begin()/end()");
  if (!none && (&*x.begin() != first || &*cx.begin() != first || &*cx.cbegin() != first || to_raw(x.begin().operator->()) != first)) bad("begin()");
  if constexpr (requires { cx.rbegin(); }) {
    if ((x.rbegin() == x.rend()) != none || (cx.rbegin() == cx.rend()) != none || (cx.crbegin() == cx.crend()) != none) bad("rbegin() == rend()");
    if (!none) {
      if (&*x.rbegin() != last || &*cx.rbegin() != last || &*cx.crbegin() != last || to_raw(x.rbegin().operator->()) != last) bad("rbegin()");
      auto a = x.rend(); --a; auto b = cx.rend(); --b; auto c = cx.crend(); --c;
      if (&*a != first || &*b != first || &*c != first) bad("rend()");
    }
    if (x.rbegin().base() != x.end() || cx.rend().base() != cx.begin()) bad("base() of a reverse iterator");
  }
  if constexpr (requires { cx.front(); }) if (!none && (&x.front() != first || &cx.front() != first)) bad("front()");
  if constexpr (requires { cx.rbegin(); cx.back(); }) if (!none && (&x.back() != last || &cx.back() != last)) bad("back()");
}
// The oracle uses the containers, too, and could hide work that an operation left for the next access
// (a lazily updated cache, for instance).  So it is left out just before concurrent readers start, and in
// a part of the runs it only runs now and then.
inline bool oracle_due(const Trace &t, u32 i, u32 readers, bool always = false) {
  if (i + 1 == t.steps.size() || always) return true;
  if (t.steps[i + 1].op == readers) return false;
  return t.seed % 6 != 0 || mix(t.seed, i) % 4 == 0;
}
inline vec<int> sorted(vec<int> v) { std::sort(v.begin(), v.end()); return v; }
inline void op_begin(const char *name) { snprintf(g.slot->op, sizeof g.slot->op, "%s", name); }
} // namespace sim

// Simulation of list and slist (every option combination): three containers of
// one type, a pool of elements, held iterators, plain sequences as the model.
#pragma once
#include "world.hpp"
#include <boost/move/utility_core.hpp>

namespace sim {
enum ListOp {
  L_PUSH_FRONT, L_PUSH_BACK, L_POP_FRONT, L_POP_BACK, L_INSERT, L_INSERT_RANGE, L_ERASE, L_ERASE_RANGE, L_CLEAR, L_ASSIGN,
  L_CLONE, L_SPLICE_ALL, L_SPLICE_ONE, L_SPLICE_RANGE, L_SORT, L_MERGE, L_REVERSE, L_REMOVE, L_REMOVE_IF, L_UNIQUE, L_SHIFT,
  L_ITERTO, L_SWAP, L_MOVE_ASSIGN, L_MOVE_CTOR, L_COMPARE, L_HOLD, L_DESTROY_ELEM, L_HOOK_UNLINK, L_MISUSE, L_RELOCATE,
  L_READERS, L_PARALLEL, L_REKEY, L_SWAP_NODES, L_HOOK_COPY, L_RECREATE, L_CTOR_RANGE, L_BULK,
  L_INSERT_AFTER, L_INSERT_AFTER_RANGE, L_ERASE_AFTER, L_ERASE_AFTER_RANGE, L_SPLICE_AFTER_ALL, L_SPLICE_AFTER_ONE, L_SPLICE_AFTER_RANGE,
  L_PREVIOUS, L_INCORPORATE, L_CTOR_CHAIN, L_NOPS
};
inline const char *list_opname(u32 o) {
  static const char *n[] = {"push_front", "push_back", "pop_front", "pop_back", "insert", "insert(range)", "erase", "erase(range)", "clear", "assign",
    "clone_from", "splice(all)", "splice(one)", "splice(range)", "sort", "merge", "reverse", "remove", "remove_if", "unique", "shift",
    "iterator_to", "swap", "move_assign", "move_construct", "compare", "hold_iterator", "destroy_element", "hook_unlink", "misuse", "relocate",
    "concurrent_readers", "parallel_containers", "rekey_free", "swap_nodes", "hook_copy", "destroy+recreate", "construct(range)", "bulk_insert",
    "insert_after", "insert_after(range)", "erase_after", "erase_after(range)", "splice_after(all)", "splice_after(one)", "splice_after(range)",
    "previous", "incorporate_after", "construct(chain)"};
  return o < L_NOPS ? n[o] : "?";
}
struct LPred { int m, r; bool operator()(const Data &d) const { fcall(F_PRED); return d.key % m == r; } };
struct LEq { int grain; bool operator()(const Data &a, const Data &b) const { fcall(F_EQ); return a.key / grain == b.key / grain; } };

template <class C, bool Slist> struct ListTraits { static const bool linear = false, cache_last = false; };
template <class C> struct ListTraits<C, true> { static const bool linear = C::linear, cache_last = C::cache_last; };

template <class Cfg> struct ListEngine {
  typedef typename Cfg::E E;
  typedef typename Cfg::C C;
  typedef typename C::iterator It;
  typedef typename C::const_iterator CIt;
  typedef typename C::node_traits NT;
  typedef typename C::node_ptr NP;
  typedef typename C::node_algorithms NA;
  typedef typename C::value_traits VT;
  static const bool S = Cfg::slist;
  static const bool LINEAR = ListTraits<C, S>::linear, LASTC = ListTraits<C, S>::cache_last;
  static const bool CT = C::constant_time_size;
  static const int LM = VT::link_mode;
  static const bool SAFE = LM != boost::intrusive::normal_link;
  static const bool AUTO = LM == boost::intrusive::auto_unlink;
  static const bool RELOC = Cfg::reloc, ANY = Cfg::any, STATEFUL = C::stateful_value_traits;
  static const bool HOOK = requires { typename E::hook_t; };       // otherwise: bare nodes
  static const bool NODEOPS = !ANY && HOOK;

  Pool<E> P;
  vec<int> m[3];
  size_t coff[3], hoff, taboff[2] = {0, 0}, tmpoff = 0;
  int tt[3] = {0, 0, 0};              // stateful value traits: which side table each container was given
  const Trace *tr = nullptr; u32 si = 0;
  size_t schedpos = 0;
  int keyrange = 8;
  bool skipped = false;
  void skip() { skipped = true; }
  C &c(int i) { return *(C *)arena_at(coff[i]); }
  const C &cc(int i) { return c(i); }
  E &e(int i) { return P.e(i); }
  enum { NHELD = 3 };
  struct Held { It it; CIt cit; };
  bool hact[NHELD]; int hid[NHELD];
  Held &held(int k) { return *(Held *)arena_at(hoff + k * ((sizeof(Held) + 15) / 16 * 16)); }

  auto *tab(int k) { if constexpr (STATEFUL) return (typename VT::table *)arena_at(taboff[k]); else return (char *)nullptr; }
  auto *table(int ci) { return tab(tt[ci]); }
  bool same_traits(int a, int b) { return tt[a] == tt[b]; }   // elements may only be transferred between containers whose traits agree
  C *construct(int ci) { if constexpr (STATEFUL) return new (&c(ci)) C(VT(table(ci))); else return new (&c(ci)) C(); }
  void start(const Trace &t) {
    tr = &t;
    int n = (int)t.param(0, 12); keyrange = (int)t.param(1, 8);
    P.setup(n);
    if constexpr (STATEFUL) {
      bool two = mix(t.seed, 99) % 4 == 0;
      for (int k = 0; k < 1 + two; ++k) {
        taboff[k] = arena_alloc(sizeof(typename VT::table), 16);
        new (arena_at(taboff[k])) typename VT::table;
        for (int i = 0; i < n + 2; ++i) { NA::init(NP(tab(k)->nodes + i)); tab(k)->elems[i] = i < n ? P.ptr(i) : nullptr; }
      }
      if (two) { tt[1] = 1; tt[2] = (int)(mix(t.seed, 98) & 1); SIM_PROBE("containers with different stateful traits"); }
    }
    for (int i = 0; i < 3; ++i) coff[i] = arena_alloc(sizeof(C), 16);
    tmpoff = arena_alloc(sizeof(C), 16);
    hoff = arena_alloc(NHELD * ((sizeof(Held) + 15) / 16 * 16), 16);
    for (int k = 0; k < NHELD; ++k) { new (&held(k)) Held; hact[k] = false; }
    for (int i = 0; i < 3; ++i) construct(i);
    Rng r(mix(t.seed, 4242));
    for (int i = 0; i < n; ++i) P.create(i, (int)r.below(keyrange), (int)r.below(1000));
  }
  bool linked(int id) {
    if constexpr (STATEFUL) return !NA::inited(NP(tab(0)->nodes + id)) || (taboff[1] && !NA::inited(NP(tab(1)->nodes + id)));
    else if constexpr (SAFE && !HOOK) return !NA::inited(VT::to_node_ptr(e(id)));
    else if constexpr (SAFE) return E::hook(e(id)).is_linked();
    else return P.owner[id] >= 0;
  }
  // ------------------------------------------------------------ model
  void put(int ci, int pos, int id) { m[ci].insert(m[ci].begin() + pos, id); P.owner[id] = ci; }
  void take(int ci, int pos) { int id = m[ci][pos]; m[ci].erase(m[ci].begin() + pos); P.owner[id] = FREE; drop_held(id); }
  int index(int ci, int id) { for (size_t i = 0; i < m[ci].size(); ++i) if (m[ci][i] == id) return (int)i; return -1; }
  void forget_unlinked() { for (int k = 0; k < NHELD; ++k) if (hact[k] && P.owner[hid[k]] < 0) hact[k] = false; }
  void drop_held(int id) { for (int k = 0; k < NHELD; ++k) if (hact[k] && hid[k] == id) hact[k] = false; }
  It at(int ci, int i) { Quiet q; It it = c(ci).begin(); while (i-- > 0) ++it; return it; }
  CIt cat(int ci, int i) { return CIt(at(ci, i)); }
  It bat(int ci, int i) { Quiet q; if constexpr (S) { It it = c(ci).before_begin(); while (i-- > 0) ++it; return it; } else return at(ci, i); }
  void own(int ci) { for (int id : m[ci]) P.owner[id] = ci; }
  template <class I> int pos_of(int ci, I it, const char *what) {
    Quiet q;
    if (CIt(it) == cc(ci).cend()) return (int)m[ci].size();
    if constexpr (S) if (CIt(it) == cc(ci).cbefore_begin()) return -1;
    int id = P.id_fast(&*it);
    int i = id >= 0 ? index(ci, id) : -1;
    if (i < 0) fail("bad-iterator", "%s returned an iterator to %s", what, id < 0 ? "no element" : "an element that is not in the container");
    return i;
  }
  template <class I> void expect_pos(int ci, I it, int want, const char *what) {
    if constexpr (S) if (want == -1) { Quiet q; if (CIt(it) != cc(ci).cbefore_begin()) fail("wrong-result", "%s on container %d did not return before_begin()", what, ci); return; }
    int p = pos_of(ci, it, what);
    if (p != want) fail("wrong-result", "%s on container %d returned position %d, expected %d (contents %s)", what, ci, p, want, fmt_ids(m[ci]).c_str());
  }
  // ------------------------------------------------------------ disposer / cloner
  struct Dctx { ListEngine *w; int ci; int action; vec<int> got; };
  struct Disposer { Dctx *d; template <class Ptr> void operator()(Ptr p) const { d->w->on_dispose(*d, to_raw(p)); } };
  void on_dispose(Dctx &d, E *p) {
    int id = P.id_of(p);
    if (id < 0) fail("dispose", "disposer called with a pointer to %s", id == -2 ? "an already destroyed element" : "something that is not an element");
    if (d.got.size() < 512) for (int x : d.got) if (x == id) fail("dispose", "disposer called twice for element %d", id);
    d.got.push_back(id);
    if constexpr (SAFE) if (linked(id)) fail("dispose", "element %d handed to the disposer while still linked", id);
    if (d.action == 1) P.kill(id);
    else if (d.action == 2) { Quiet q; c((d.ci + 1) % 3).push_front(*p); }
  }
  void settle(Dctx &d, const vec<int> &want, const char *what) {
    expect_ids(sorted(d.got), sorted(want), "dispose", what);
    for (int id : d.got) { drop_held(id); if (d.action == 2) put((d.ci + 1) % 3, 0, id); }
  }
  struct Cctx { ListEngine *w; vec<int> src, dst; int cur = 0; };
  E *do_clone(Cctx &x, const E &s) {
    int id = P.id_of(&s);
    if (id < 0) fail("clone", "cloner called with something that is not an element");
    fcall(F_CLONE);
    int n = -1;
    for (int i = x.cur; i < P.N; ++i) if (P.pick(i) && !P.tmpmark[i]) { n = i; break; }
    if (n >= 0) x.cur = n + 1;
    if (n < 0) fail("clone", "cloner called more often than there are source elements");
    P.tmpmark[n] = 1;
    P.rekey(n, P.key[id], P.prio[id]);
    x.src.push_back(id); x.dst.push_back(n);
    return P.ptr(n);
  }
  struct Cloner { Cctx *x; E *operator()(const E &s) const { return x->w->do_clone(*x, s); } };
  struct NCloner { Cctx *x; E *operator()(E &s) const { return x->w->do_clone(*x, s); } };
  vec<int> cut(int ci, int i, int j, Dctx *d) {
    vec<int> ids(m[ci].begin() + i, m[ci].begin() + j);
    m[ci].erase(m[ci].begin() + i, m[ci].begin() + j);
    for (int id : ids) { drop_held(id); P.owner[id] = d && d->action == 1 ? DEAD : FREE; }
    return ids;
  }
  vec<int> free_list(u32 start, int k) {
    vec<int> v;
    for (int d = 0; d < P.N && (int)v.size() < k; ++d) { int i = (int)((start + d) % P.N); if (P.pick(i)) v.push_back(i); }
    return v;
  }
  vec<E *> ptrs(const vec<int> &v) { vec<E *> r; for (int i : v) r.push_back(P.ptr(i)); return r; }

  // ------------------------------------------------------------ oracle
  void check_one(int ci) {
    C &x = c(ci); const C &cx = x;
    size_t n = m[ci].size(), k = 0;
    It it = x.begin();
    for (; it != x.end(); ++it, ++k) {
      if (k >= n) fail("contents", "container %d iterates past its %zu elements (model %s)", ci, n, fmt_ids(m[ci]).c_str());
      int id = P.id_fast(&*it);
      if (id != m[ci][k]) fail("contents", "container %d: element at position %zu is %d, expected %d (model %s)", ci, k, id, m[ci][k], fmt_ids(m[ci]).c_str());
    }
    if (k != n) fail("contents", "container %d iterates over %zu elements, expected %zu", ci, k, n);
    if constexpr (!S) {
      for (k = n; k > 0; --k) { --it; if (&*it != P.ptr(m[ci][k - 1])) fail("contents", "container %d: backward iteration differs at position %zu", ci, k - 1); }
      if (it != x.begin()) fail("contents", "container %d: backward iteration does not end at begin()", ci);
      --it; if (it != x.end()) fail("contents", "container %d: begin() is not preceded by the header", ci);
      if (n && (&*cx.crbegin() != P.ptr(m[ci][n - 1]) || &cx.back() != P.ptr(m[ci][n - 1]) || &x.back() != P.ptr(m[ci][n - 1]))) fail("contents", "container %d: back() is wrong", ci);
    } else {
      CIt b = cx.cbefore_begin(); ++b; if (b != cx.cbegin()) fail("contents", "container %d: before_begin() does not precede begin()", ci);
      if constexpr (LASTC) {
        if (n) { if (CIt(x.last()) == cx.cend() || &*cx.last() != P.ptr(m[ci][n - 1]) || &cx.back() != P.ptr(m[ci][n - 1]) || &x.back() != P.ptr(m[ci][n - 1])) fail("last", "container %d: last()/back() is not the last element", ci); }
        else if (cx.clast() != cx.cbefore_begin()) fail("last", "container %d: last() of an empty list is not before_begin()", ci);
      }
    }
    if (cx.size() != n) fail("size", "container %d: size() is %zu, expected %zu", ci, (size_t)cx.size(), n);
    if (cx.empty() != (n == 0)) fail("size", "container %d: empty() is %d with %zu elements", ci, (int)cx.empty(), n);
    if (n && (&cx.front() != P.ptr(m[ci][0]) || &*cx.begin() != P.ptr(m[ci][0]))) fail("contents", "container %d: front() is wrong", ci);
    check_ends(x, n ? P.ptr(m[ci][0]) : (E *)nullptr, n ? P.ptr(m[ci][n - 1]) : (E *)nullptr, ci);
    cx.check();
    if constexpr (!LINEAR && C::has_container_from_iterator)
      if (&C::container_from_end_iterator(x.end()) != &x || &C::container_from_end_iterator(cx.cend()) != &cx) fail("container_from", "container_from_end_iterator does not return container %d", ci);
    u64 h = mix(hash_str(tr->cfg.c_str()), ci); for (int id : m[ci]) h = mix(h, (u64)P.key[id] + 1); g.states.add(h);
  }
  void oracle() {
    Quiet q;
    P.verify_data();
    for (int i = 0; i < 3; ++i) check_one(i);
    if constexpr (SAFE) for (int i = 0; i < P.N; ++i) if (P.owner[i] != DEAD) {
      int ci = P.owner[i];
      if (LINEAR && ci >= 0 && m[ci].back() == i) continue;          // a linear list cannot tell for its last node
      bool l = linked(i);
      if (l != (ci >= 0)) fail("is_linked", "element %d: is_linked() is %d but it is %s", i, (int)l, ci >= 0 ? "in a container" : "in no container");
    }
    for (int k = 0; k < NHELD; ++k) if (hact[k]) {
      int id = hid[k], ci = P.owner[id];
      if (ci < 0) { hact[k] = false; continue; }
      Held &H = held(k);
      if (&*H.it != P.ptr(id) || &*H.cit != P.ptr(id)) fail("held-iterator", "an iterator taken earlier no longer denotes element %d", id);
      int j = index(ci, id);
      It nx = H.it; ++nx; expect_pos(ci, nx, j + 1, "++ of a held iterator");
      if constexpr (!S) if (j) { CIt pv = H.cit; --pv; expect_pos(ci, pv, j - 1, "-- of a held iterator"); }
    }
    lognum(0x51); for (int i = 0; i < 3; ++i) { for (int id : m[i]) lognum(id * 4 + i); lognum(999); }
  }
  vec<int> contents(int ci) {
    Quiet q; vec<int> v;
    for (It it = c(ci).begin(); it != c(ci).end(); ++it) { int id = P.id_fast(&*it); if (id < 0 || v.size() > (size_t)P.N) fail("contents", "container %d is corrupt after an exception", ci); v.push_back(id); }
    return v;
  }
  // adopt what the containers hold after an exception; ids must come from 'old' and be distinct
  void adopt(int ci, const vec<int> &v) { m[ci] = v; own(ci); }
  static bool subset(const vec<int> &a, const vec<int> &b) { auto x = sorted(a), y = sorted(b); return std::includes(y.begin(), y.end(), x.begin(), x.end()) && std::adjacent_find(x.begin(), x.end()) == x.end(); }

  // ------------------------------------------------------------ operations
  void op_push(const Step &s, int ci, bool front) {
    if constexpr (S && !LASTC) if (!front) return skip();
    int id = P.take_free(s.b); if (id < 0) return skip();
    if (front) { c(ci).push_front(e(id)); put(ci, 0, id); }
    else if constexpr (!S || LASTC) { c(ci).push_back(e(id)); put(ci, (int)m[ci].size(), id); }
  }
  void op_pop(const Step &s, int ci, bool front) {
    int n = (int)m[ci].size(); if (!n) return skip();
    if (S && !front) return skip();
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
    int pos = front ? 0 : n - 1;
    if (front) { if (disp) c(ci).pop_front_and_dispose(Disposer{&d}); else c(ci).pop_front(); }
    else if constexpr (!S) { if (disp) c(ci).pop_back_and_dispose(Disposer{&d}); else c(ci).pop_back(); }
    vec<int> ids = cut(ci, pos, pos + 1, disp ? &d : nullptr);
    if (disp) settle(d, ids, "pop_and_dispose");
  }
  void op_insert(const Step &s, int ci) {
    int id = P.take_free(s.b); if (id < 0) return skip();
    int pos = (int)(s.c % (m[ci].size() + 1));
    It r = c(ci).insert(cat(ci, pos), e(id));
    put(ci, pos, id);
    expect_pos(ci, r, pos, "insert");
  }
  void op_insert_range(const Step &s, int ci) {
    auto ids = free_list(s.b, (int)(s.d % 7)); auto v = ptrs(ids);
    int pos = (int)(s.c % (m[ci].size() + 1));
    c(ci).insert(cat(ci, pos), PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()));
    for (size_t i = 0; i < ids.size(); ++i) put(ci, pos + (int)i, ids[i]);
  }
  void op_erase(const Step &s, int ci) {
    int n = (int)m[ci].size(); if (!n) return skip();
    int pos = (int)(s.b % n); bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
    It r; CIt p = cat(ci, pos);
    if (disp) { if (s.d & 8) r = c(ci).erase_and_dispose(p, Disposer{&d}); else r = c(ci).erase_and_dispose(at(ci, pos), Disposer{&d}); }
    else r = c(ci).erase(p);
    vec<int> ids = cut(ci, pos, pos + 1, disp ? &d : nullptr);
    if (disp) settle(d, ids, "erase_and_dispose(it)");
    expect_pos(ci, r, pos, "erase(it)");
  }
  void op_erase_range(const Step &s, int ci) {
    int n = (int)m[ci].size();
    int i = (int)(s.b % (n + 1)), j = (int)(s.c % (n + 1)); if (i > j) std::swap(i, j);
    int kind = (int)(s.d % 3); Dctx d{this, ci, (int)((s.d >> 2) % 3), {}};
    CIt b = cat(ci, i), en = cat(ci, j); It r;
    if (kind == 0) r = c(ci).erase(b, en);
    else if (kind == 1) r = c(ci).erase(b, en, (typename C::size_type)(j - i));
    else r = c(ci).erase_and_dispose(b, en, Disposer{&d});
    vec<int> ids = cut(ci, i, j, kind == 2 ? &d : nullptr);
    if (kind == 2) settle(d, ids, "erase_and_dispose(range)");
    expect_pos(ci, r, i, "erase(range)");
  }
  void op_clear(const Step &s, int ci) {
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
    if (disp) c(ci).clear_and_dispose(Disposer{&d}); else c(ci).clear();
    vec<int> ids = cut(ci, 0, (int)m[ci].size(), disp ? &d : nullptr);
    if (disp) settle(d, ids, "clear_and_dispose");
  }
  void op_assign(const Step &s, int ci) {
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 2), {}};
    auto ids = free_list(s.b, (int)(s.c % 7)); auto v = ptrs(ids);
    PtrIter<E> b(v.data()), en(v.data() + v.size());
    if (disp) c(ci).dispose_and_assign(Disposer{&d}, b, en); else c(ci).assign(b, en);
    vec<int> old = cut(ci, 0, (int)m[ci].size(), disp ? &d : nullptr);
    if (disp) settle(d, old, "dispose_and_assign");
    m[ci] = ids; own(ci);
  }
  void op_clone(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    Dctx d{this, a, (int)(s.c & 1), {}};
    for (int i = 0; i < P.N; ++i) if (P.owner[i] == DEAD) P.create(i, P.key[i], P.prio[i]);
    int nf = 0; for (int i = 0; i < P.N; ++i) nf += P.owner[i] == FREE;
    if (nf < (int)m[b].size()) return skip();
    std::fill(P.tmpmark.begin(), P.tmpmark.end(), 0);
    vec<int> olda = m[a];
    Cctx x{this, {}, {}};
    bool threw;
    {
      Arm arm(s, SIM_BIT(F_CLONE));
      if (s.d & 1) threw = attempt([&] { c(a).clone_from(boost::move(c(b)), NCloner{&x}, Disposer{&d}); });
      else threw = attempt([&] { c(a).clone_from(cc(b), Cloner{&x}, Disposer{&d}); });
    }
    std::fill(P.tmpmark.begin(), P.tmpmark.end(), 0);
    vec<int> want = olda;
    if (threw) { SIM_PROBE("clone_from threw"); if (x.dst.size() > 1) SIM_PROBE("clone_from threw after some clones"); want.insert(want.end(), x.dst.begin(), x.dst.end()); }
    expect_ids(sorted(d.got), sorted(want), "clone", threw ? "elements disposed by a clone_from that failed" : "elements disposed by clone_from");
    cut(a, 0, (int)m[a].size(), nullptr);
    for (int id : d.got) { P.owner[id] = d.action == 1 ? DEAD : FREE; drop_held(id); }
    if (!threw) { expect_ids(x.src, m[b], "clone", "elements cloned, in order"); m[a] = x.dst; own(a); }
  }
  // model of moving m[b][i,j) before position p of a (position counted before the move)
  void mmove(int a, int p, int b, int i, int j) {
    vec<int> ids(m[b].begin() + i, m[b].begin() + j);
    m[b].erase(m[b].begin() + i, m[b].begin() + j);
    if (a == b) { if (p >= j) p -= (j - i); else if (p > i) p = i; }
    m[a].insert(m[a].begin() + p, ids.begin(), ids.end());
    own(a);
  }
  void op_splice_all(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3; if (!same_traits(a, b)) return skip();
    int p = (int)(s.c % (m[a].size() + 1)), n = (int)m[b].size();
    if constexpr (S) {
      if (s.d & 1) { CIt l; c(a).splice(cat(a, p), c(b), &l); mmove(a, p, b, 0, n); expect_pos(a, l, p + n - 1, "splice: last inserted"); return; }
    }
    c(a).splice(cat(a, p), c(b));
    mmove(a, p, b, 0, n);
  }
  void op_splice_one(const Step &s, int a) {
    int b = (a + (int)(s.b % 3)) % 3; int n = (int)m[b].size(); if (!n) return skip(); if (!same_traits(a, b)) return skip();
    int p = (int)(s.c % (m[a].size() + 1)), i = (int)(s.d % n);
    c(a).splice(cat(a, p), c(b), cat(b, i));
    mmove(a, p, b, i, i + 1);
  }
  void op_splice_range(const Step &s, int a) {
    int b = (a + (int)(s.b % 3)) % 3; int n = (int)m[b].size(); if (!same_traits(a, b)) return skip();
    int i = (int)((s.b >> 2) % (n + 1)), j = (int)(s.d % (n + 1)); if (i > j) std::swap(i, j);
    int p = (int)(s.c % (m[a].size() + 1));
    if (a == b && p > i && p < j) p = i;
    if (a == b && S && p == j) p = i;                               // position right behind the range: nothing moves
    if ((s.d >> 6) & 1) c(a).splice(cat(a, p), c(b), cat(b, i), cat(b, j), (typename C::size_type)(j - i));
    else c(a).splice(cat(a, p), c(b), cat(b, i), cat(b, j));
    mmove(a, p, b, i, j);
  }
  void op_sort(const Step &s, int ci) {
    int md = (int)(s.b % 3); vec<int> old = m[ci];
    Arm arm(s, SIM_BIT(F_CMP));
    bool threw = attempt([&] { if (s.c % 4 == 0) { md = 0; c(ci).sort(); } else c(ci).sort(Cmp(md)); });
    if (threw) {
      SIM_PROBE("sort threw");
      vec<int> v = contents(ci);
      if (!subset(v, old)) fail("contents", "sort threw and the list holds foreign or repeated elements");
      if (v.size() < old.size()) SIM_PROBE("sort threw and left elements unlinked");
      for (int id : old) { P.owner[id] = FREE; }
      adopt(ci, v);
      for (int id : old) if (P.owner[id] == FREE) drop_held(id);
      return;
    }
    stable_insertion_sort(m[ci].begin(), m[ci].end(), [&](int x, int y) { return key_less(md, P.key[x], P.key[y]); });
  }
  bool is_sorted(int ci, int md) { for (size_t i = 1; i < m[ci].size(); ++i) if (key_less(md, P.key[m[ci][i]], P.key[m[ci][i - 1]])) return false; return true; }
  void op_merge(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3, md = (int)(s.c % 3); if (!same_traits(a, b)) return skip();
    auto ms = [&](int ci) { if (is_sorted(ci, md)) return; { Quiet q; c(ci).sort(Cmp(md)); } stable_insertion_sort(m[ci].begin(), m[ci].end(), [&](int x, int y) { return key_less(md, P.key[x], P.key[y]); }); };
    ms(a); ms(b);
    vec<int> oa = m[a], ob = m[b];
    CIt l; bool usel = false;
    Arm arm(s, SIM_BIT(F_CMP));
    bool threw = attempt([&] {
      if (md == 0 && s.d % 4 == 0) c(a).merge(c(b));
      else { if constexpr (S) { if (s.d & 1) { usel = true; c(a).merge(c(b), Cmp(md), &l); return; } } c(a).merge(c(b), Cmp(md)); }
    });
    if (threw) {
      SIM_PROBE("merge threw");
      vec<int> na = contents(a), nb = contents(b), all = na, old = oa;
      all.insert(all.end(), nb.begin(), nb.end()); old.insert(old.end(), ob.begin(), ob.end());
      if (sorted(all) != sorted(old)) fail("lost-element", "merge threw and elements were lost or duplicated: %s + %s -> %s + %s", fmt_ids(oa).c_str(), fmt_ids(ob).c_str(), fmt_ids(na).c_str(), fmt_ids(nb).c_str());
      adopt(a, na); adopt(b, nb);
      return;
    }
    vec<int> r; size_t i = 0, j = 0;
    while (i < oa.size() || j < ob.size()) {
      if (j == ob.size() || (i < oa.size() && !key_less(md, P.key[ob[j]], P.key[oa[i]]))) r.push_back(oa[i++]); else r.push_back(ob[j++]);
    }
    m[b].clear(); m[a] = r; own(a);
    if (usel) { if (ob.empty()) expect_pos(a, l, (int)m[a].size(), "merge: last transferred"); else expect_pos(a, l, index(a, ob.back()), "merge: last transferred"); }
  }
  // shared by remove_if and unique: account for removed ids
  void account(int ci, const vec<int> &gone, bool disp, Dctx &d, const char *what) {
    for (int id : gone) { drop_held(id); P.owner[id] = disp && d.action == 1 ? DEAD : FREE; }
    vec<int> keep; IdSet gs(gone); for (int id : m[ci]) if (!gs.has(id)) keep.push_back(id);
    m[ci] = keep;
    if (disp) settle(d, gone, what);
  }
  void op_remove(const Step &s, int ci) {
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
    alignas(E) static char buf[sizeof(E)]; E *probe = new (buf) E; probe->key = (int)(s.b % keyrange);
    vec<int> gone; for (int id : m[ci]) if (P.key[id] == probe->key) gone.push_back(id);
    const E *val = probe;
    if (!disp && ((s.d >> 3) & 3) == 0 && !gone.empty()) { SIM_PROBE("remove: the value is an element of the list"); val = &e(gone[s.c % gone.size()]); }
    vec<int> old = m[ci];
    Arm arm(s, SIM_BIT(F_EQ));
    bool threw = attempt([&] { if (disp) c(ci).remove_and_dispose(*val, Disposer{&d}); else c(ci).remove(*val); });
    int probe_key = probe->key; probe->~E();
    if (threw) {
      SIM_PROBE("remove threw");
      vec<int> v = contents(ci), lost;
      if (!subset(v, old)) fail("contents", "remove threw and the list holds foreign or repeated elements");
      IdSet vs(v); for (int id : old) if (!vs.has(id)) { if (P.key[id] != probe_key) fail("lost-element", "remove threw and lost element %d that is not equal to the value", id); lost.push_back(id); }
      account(ci, lost, disp, d, "elements disposed before the exception");
      adopt(ci, v);
      return;
    }
    account(ci, gone, disp, d, "remove_and_dispose");
  }
  void op_remove_if(const Step &s, int ci) {
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
    LPred p{1 + (int)(s.b % 4), 0}; p.r = (int)(s.c % p.m);
    vec<int> gone, old = m[ci]; for (int id : old) if (P.key[id] % p.m == p.r) gone.push_back(id);
    Arm arm(s, SIM_BIT(F_PRED));
    bool threw = attempt([&] { if (disp) c(ci).remove_and_dispose_if(p, Disposer{&d}); else c(ci).remove_if(p); });
    if (threw) {
      SIM_PROBE("remove_if threw");
      vec<int> v = contents(ci), lost;
      if (!subset(v, old)) fail("contents", "remove_if threw and the list holds foreign or repeated elements");
      IdSet vs(v); for (int id : old) if (!vs.has(id)) { if (P.key[id] % p.m != p.r) fail("lost-element", "remove_if threw and lost element %d that the predicate never selected", id); lost.push_back(id); }
      if (!disp && !SAFE && !lost.empty()) SIM_PROBE("remove_if threw after removing");
      account(ci, lost, disp, d, "elements disposed before the exception");
      adopt(ci, v);
      return;
    }
    account(ci, gone, disp, d, "remove_and_dispose_if");
  }
  void op_unique(const Step &s, int ci) {
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
    bool dflt = s.c % 4 == 0; int grain = dflt ? 1 : 1 + (int)(s.b % 3);
    vec<int> gone, old = m[ci]; int last = -1;
    for (int id : old) { if (last >= 0 && P.key[last] / grain == P.key[id] / grain) gone.push_back(id); else last = id; }
    Arm arm(s, SIM_BIT(F_EQ));
    bool threw = attempt([&] {
      if (dflt) { if (disp) c(ci).unique_and_dispose(Disposer{&d}); else c(ci).unique(); }
      else if (disp) c(ci).unique_and_dispose(LEq{grain}, Disposer{&d}); else c(ci).unique(LEq{grain});
    });
    if (threw) {
      SIM_PROBE("unique threw"); IdSet gs(gone);
      vec<int> v = contents(ci), lost;
      if (!subset(v, old)) fail("contents", "unique threw and the list holds foreign or repeated elements");
      IdSet vs(v); for (int id : old) if (!vs.has(id)) { if (!gs.has(id)) fail("lost-element", "unique threw and lost element %d", id); lost.push_back(id); }
      account(ci, lost, disp, d, "elements disposed before the exception");
      adopt(ci, v);
      return;
    }
    account(ci, gone, disp, d, "unique_and_dispose");
  }
  void op_shift(const Step &s, int ci) {
    typename C::size_type n = (typename C::size_type)(s.b % 4 == 0 ? s.c % 40 : s.c % 5);
    size_t sz = m[ci].size();
    if (s.d & 1) { c(ci).shift_backwards(n); if (sz) std::rotate(m[ci].begin(), m[ci].begin() + (sz - n % sz) % sz, m[ci].end()); }
    else { c(ci).shift_forward(n); if (sz) std::rotate(m[ci].begin(), m[ci].begin() + n % sz, m[ci].end()); }
  }
  void op_iterto(const Step &s, int ci) {
    int n = (int)m[ci].size(); if (!n) return skip();
    int pos = (int)(s.b % n); E &x = e(m[ci][pos]); const E &cx = x;
    expect_pos(ci, c(ci).iterator_to(x), pos, "iterator_to");
    expect_pos(ci, cc(ci).iterator_to(cx), pos, "iterator_to const");
    if constexpr (!STATEFUL) { expect_pos(ci, C::s_iterator_to(cx), pos, "s_iterator_to"); expect_pos(ci, C::s_iterator_to(x), pos, "s_iterator_to"); }
    It it = c(ci).iterator_to(x); It o = it++; expect_pos(ci, it, pos + 1, "post-increment"); expect_pos(ci, o, pos, "post-increment");
    if constexpr (!S) { It o2 = it--; expect_pos(ci, it, pos, "post-decrement"); expect_pos(ci, o2, pos + 1, "post-decrement"); }
    CIt cv(o); expect_pos(ci, cv, pos, "iterator conversion");
  }
  void op_swap(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    if (s.c & 1) c(a).swap(c(b)); else { swap(c(a), c(b)); }
    std::swap(m[a], m[b]); std::swap(tt[a], tt[b]); own(a); own(b);
  }
  void op_move_assign(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    vec<int> oa = m[a], ob = m[b];
    c(a) = boost::move(c(b)); std::swap(tt[a], tt[b]);
    vec<int> na = contents(a), nb = contents(b);
    expect_ids(na, ob, "move", "contents after move assignment");
    if (!subset(nb, oa)) fail("move", "moved-from container holds a foreign element");
    for (int id : oa) P.owner[id] = FREE;
    m[a] = na; m[b] = nb; own(a); own(b);
    for (int id : oa) if (P.owner[id] == FREE) drop_held(id);
    SIM_PROBE("move assignment");
  }
  void op_move_ctor(int a) {
    C *t = new (arena_at(tmpoff)) C(boost::move(c(a)));
    { Quiet q; if (!c(a).empty()) fail("move", "moved-from container is not empty"); if (t->size() != m[a].size()) fail("move", "moved-to container has the wrong size"); }
    c(a).~C(); memset(arena_at(coff[a]), FILL_FRESH, sizeof(C));
    new (arena_at(coff[a])) C(boost::move(*t));
    { Quiet q; if (!t->empty()) fail("move", "moved-from container is not empty"); }
    t->~C(); memset(arena_at(tmpoff), FILL_FRESH, sizeof(C));
    SIM_PROBE("move construction");
  }
  bool model_eq(int a, int b) { if (m[a].size() != m[b].size()) return false; for (size_t i = 0; i < m[a].size(); ++i) if (P.key[m[a][i]] != P.key[m[b][i]]) return false; return true; }
  bool model_lt(int a, int b) { return std::lexicographical_compare(m[a].begin(), m[a].end(), m[b].begin(), m[b].end(), [&](int x, int y) { return P.key[x] < P.key[y]; }); }
  void op_compare(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3; const C &x = c(a), &y = c(b);
    if ((x == y) != model_eq(a, b) || (x != y) == model_eq(a, b)) fail("wrong-result", "operator== is wrong for %s and %s", fmt_ids(m[a]).c_str(), fmt_ids(m[b]).c_str());
    if ((x < y) != model_lt(a, b) || (y > x) != model_lt(a, b) || (x >= y) == model_lt(a, b) || (y <= x) == model_lt(a, b)) fail("wrong-result", "ordering operators are wrong");
    if (!(x == x)) fail("wrong-result", "a container differs from itself");
  }
  void op_hold(const Step &s, int ci) {
    if constexpr (!STATEFUL) {
      int n = (int)m[ci].size(); if (!n) return skip();
      int k = (int)(s.b % NHELD), pos = (int)(s.c % n); Held &H = held(k);
      H.it = at(ci, pos); H.cit = H.it; hact[k] = true; hid[k] = m[ci][pos];
    } else skip();
  }
  void op_destroy_elem(const Step &s) {
    int id = (int)(s.b % P.N); if (P.owner[id] == DEAD) return skip();
    if (AUTO && P.owner[id] >= 0) {
      int ci = P.owner[id];
      P.ptr(id)->~E(); take(ci, index(ci, id)); P.poison(id);
      SIM_PROBE("destroyed a linked auto-unlink element");
    } else if (P.owner[id] == FREE) P.kill(id); else skip();
  }
  void op_hook_unlink(const Step &s) {
    if constexpr (AUTO && NODEOPS) {
      int id = (int)(s.b % P.N); if (P.owner[id] == DEAD) return skip();
      P.pick(id); int ci = P.owner[id];
      E::hook(e(id)).unlink();
      if (ci >= 0) { take(ci, index(ci, id)); SIM_PROBE("hook unlink() of a linked element"); }
    } else skip();
  }
  void op_misuse(const Step &s, int ci) {
    if constexpr (SAFE) {
      int id = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0 && !(LINEAR && m[P.owner[i]].back() == i)) { id = i; break; } }
      if (id < 0) return skip();
      if (!same_traits(ci, P.owner[id])) return skip();
      bool asserted = true; const char *what = "";
      switch (s.c % 5) {
      case 0: what = "push_front"; asserted = expects_assert([&] { c(ci).push_front(e(id)); }); break;
      case 1: what = "push_back"; if constexpr (!S || LASTC) asserted = expects_assert([&] { c(ci).push_back(e(id)); }); else return skip(); break;
      case 2: what = "insert"; asserted = expects_assert([&] { c(ci).insert(cat(ci, (int)(s.d % (m[ci].size() + 1))), e(id)); }); break;
      case 3: if constexpr (S) { what = "insert_after"; asserted = expects_assert([&] { c(ci).insert_after(CIt(bat(ci, (int)(s.d % (m[ci].size() + 1)))), e(id)); }); } else return skip(); break;
      default: if constexpr (LM == boost::intrusive::safe_link && HOOK) { what = "the destructor"; typedef typename E::hook_t H; asserted = expects_assert([&] { E::hook(e(id)).~H(); }); } else return skip();
      }
      g.quiet = false;
      if (!asserted) fail("no-assert", "%s of an element that is already linked was not reported", what);
      SIM_PROBE("misuse reported");
    } else skip();
  }
  void op_relocate() { if constexpr (RELOC) { arena_relocate(); SIM_PROBE("relocated"); } else skip(); }
  // ------------------------------------------------------------ concurrency
  struct RCtx { ListEngine *w; u64 seed; int nops; };
  static void reader_body(void *v, int f) {
    RCtx &r = *(RCtx *)v; ListEngine &w = *r.w; Rng rng(mix(r.seed, f));
    for (int i = 0; i < r.nops; ++i) {
      int ci = (int)rng.below(3), o = (ci + 1) % 3; const C &x = w.cc(ci); size_t n = w.m[ci].size();
      switch (rng.below(9)) {
      case 0: { size_t k = 0; for (CIt it = x.cbegin(); it != x.cend(); ++it, ++k) if (k >= n || &*it != w.P.ptr(w.m[ci][k])) fail("reader", "a concurrent reader saw a wrong element at position %zu", k); if (k != n) fail("reader", "a concurrent reader saw %zu of %zu elements", k, n); break; }
      case 1: if constexpr (!S) { size_t k = n; for (auto it = x.crbegin(); it != x.crend(); ++it) { if (!k || &*it != w.P.ptr(w.m[ci][k - 1])) fail("reader", "a concurrent reverse reader saw a wrong element"); --k; } if (k) fail("reader", "a concurrent reverse reader missed elements"); }
              else if (n) { int p = (int)rng.below((u32)n); w.expect_pos(ci, x.previous(x.iterator_to(w.e(w.m[ci][p]))), p - 1, "concurrent previous()"); } break;
      case 2: if (x.size() != n || x.empty() != (n == 0)) fail("reader", "concurrent size() is wrong"); break;
      case 3: if (n && &x.front() != w.P.ptr(w.m[ci][0])) fail("reader", "concurrent front() is wrong");
              if constexpr (!S || LASTC) if (n && &x.back() != w.P.ptr(w.m[ci][n - 1])) fail("reader", "concurrent back() is wrong"); break;
      case 4: if ((x == w.cc(o)) != w.model_eq(ci, o)) fail("reader", "concurrent operator== is wrong"); break;
      case 5: if ((x < w.cc(o)) != w.model_lt(ci, o)) fail("reader", "concurrent operator< is wrong"); break;
      case 6: {   // element -> iterator and its neighbours, every end accessor
        if (x.begin() != x.cbegin() || x.end() != x.cend()) fail("reader", "concurrent begin()/end() overloads disagree");
        if constexpr (C::has_container_from_iterator && !LINEAR) if (&C::container_from_end_iterator(x.cend()) != &x) fail("reader", "concurrent container_from_end_iterator() is wrong");
        if constexpr (S) {
          CIt bb = x.cbefore_begin(); if (bb != x.before_begin()) fail("reader", "concurrent before_begin() overloads disagree"); ++bb; if (bb != x.cbegin()) fail("reader", "concurrent before_begin() is wrong");
          if constexpr (LASTC) if (x.last() != x.clast() || (n ? &*x.clast() != w.P.ptr(w.m[ci][n - 1]) : x.clast() != x.cbefore_begin())) fail("reader", "concurrent last() is wrong");
        } else if (n && (&*x.rbegin() != w.P.ptr(w.m[ci][n - 1]) || x.rbegin() != x.crbegin() || x.rend() != x.crend())) fail("reader", "concurrent rbegin()/rend() is wrong");
        if (!n) break;
        int p = (int)rng.below((u32)n); const E &ce = w.e(w.m[ci][p]);
        CIt it = x.iterator_to(ce); if (&*it != &ce) fail("reader", "concurrent iterator_to() is wrong");
        if constexpr (!STATEFUL) { CIt sit = C::s_iterator_to(ce); if (sit != it) fail("reader", "concurrent s_iterator_to() is wrong"); }
        CIt jt = it; ++jt; w.expect_pos(ci, jt, p + 1, "concurrent ++");
        if constexpr (!S) { CIt kt = it; --kt; if (p) w.expect_pos(ci, kt, p - 1, "concurrent --"); else if (kt != x.cend()) fail("reader", "concurrent --begin() is wrong"); }
        else { int q = (int)rng.below((u32)p + 1); CIt from = q ? x.iterator_to(w.e(w.m[ci][q - 1])) : x.cbefore_begin(); w.expect_pos(ci, x.previous(from, it), p - 1, "concurrent previous(from, i)"); }
        break;
      }
      case 7: if ((x != w.cc(o)) == w.model_eq(ci, o) || (x > w.cc(o)) != w.model_lt(o, ci) || (x <= w.cc(o)) == w.model_lt(o, ci) || (x >= w.cc(o)) == w.model_lt(ci, o)) fail("reader", "concurrent comparison is wrong"); break;
      default: { x.check(); int id = (int)rng.below((u32)w.P.N); if constexpr (SAFE) { int oc = w.P.owner[id]; w.P.pick(id); if (oc != DEAD && !(LINEAR && oc >= 0 && w.m[oc].back() == id)) if (w.linked(id) != (oc >= 0)) fail("reader", "concurrent is_linked() is wrong"); } }
      }
    }
  }
  void op_readers(const Step &s) {
    RCtx r{this, mix(tr->seed, si), 2 + (int)(s.b % 5)};
    arena_protect(true);
    Fibers::run(2 + (int)(s.a % 3), reader_body, &r, tr->sched, schedpos);
    arena_protect(false);
    SIM_PROBE("reader batch");
  }
  static void writer_body(void *v, int f) {
    RCtx &r = *(RCtx *)v; ListEngine &w = *r.w; Rng rng(mix(r.seed, 100 + f));
    int ci = f; C &x = w.c(ci);
    for (int i = 0; i < r.nops; ++i) {
      u32 k = rng.below(9), st = (u32)rng.next() % 64;
      int n = (int)w.m[ci].size();
      if (k < 3) {
        int id = -1;
        for (int d = 0; d < w.P.N; ++d) { int j = (int)((st + d) % w.P.N); if (j % 3 == f && w.P.pick(j)) { id = j; break; } }
        if (id < 0) continue;
        int pos = (int)rng.below(n + 1);
        It it = x.begin(); for (int q = 0; q < pos; ++q) ++it;
        x.insert(it, w.e(id)); w.put(ci, pos, id);
      } else if (k == 3) { if (n) { int pos = (int)rng.below(n); x.erase(x.iterator_to(w.e(w.m[ci][pos]))); w.take(ci, pos); } }
      else if (k == 4) { int md = (int)rng.below(3); x.sort(Cmp(md)); stable_insertion_sort(w.m[ci].begin(), w.m[ci].end(), [&](int a, int b) { return key_less(md, w.P.key[a], w.P.key[b]); }); }
      else if (k == 5) { x.reverse(); std::reverse(w.m[ci].begin(), w.m[ci].end()); }
      else if (k == 6) { x.shift_forward(1); if (n) std::rotate(w.m[ci].begin(), w.m[ci].begin() + 1 % n, w.m[ci].end()); }
      else if (k == 7) { if (n) { x.pop_front(); w.take(ci, 0); } }
      else { int q = 0; for (It it = x.begin(); it != x.end(); ++it, ++q) if (q >= n || &*it != w.P.ptr(w.m[ci][q])) fail("parallel", "iteration wrong while other containers are being used"); }
    }
  }
  void op_parallel(const Step &s) {
    RCtx r{this, mix(tr->seed, si), 3 + (int)(s.b % 6)};
    Fibers::run(3, writer_body, &r, tr->sched, schedpos);
    SIM_PROBE("parallel containers batch");
  }
  void op_rekey(const Step &s) { int id = P.take_free(s.b); if (id < 0) return skip(); P.rekey(id, (int)(s.c % keyrange), (int)s.d); }
  void op_swap_nodes(const Step &s) {
    if constexpr (NODEOPS && !LINEAR && !LASTC) {
      int a = -1, b = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0) { a = i; break; } }
      if (a < 0) return skip();
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.c + d) % P.N); if (i != a && (P.owner[i] >= 0 || (SAFE && P.pick(i)))) { b = i; break; } }
      if (b < 0) return skip();
      int ca = P.owner[a], cb = P.owner[b];
      if (s.d & 2) E::hook(e(a)).swap_nodes(E::hook(e(b))); else E::hook(e(b)).swap_nodes(E::hook(e(a)));
      int pa = index(ca, a), pb = cb >= 0 ? index(cb, b) : -1;
      m[ca][pa] = b; P.owner[b] = ca;
      if (cb >= 0) { m[cb][pb] = a; P.owner[a] = cb; SIM_PROBE("swap_nodes of two linked nodes"); if (ca == cb && (pa - pb == 1 || pb - pa == 1)) SIM_PROBE("swap_nodes of neighbours"); } else P.owner[a] = FREE;
      drop_held(a); drop_held(b);
    } else skip();
  }
  void op_hook_copy(const Step &s) {
    if constexpr (HOOK) {
      int a = (int)(s.b % P.N), b = (int)(s.c % P.N);
      if (P.owner[a] == DEAD || P.owner[b] == DEAD || a == b) return skip();
      typedef typename E::hook_t H;
      if (s.d & 1) E::hook(e(a)) = E::hook(e(b));
      else { H h(E::hook(e(b))); if constexpr (SAFE) if (h.is_linked()) fail("hook-copy", "a copied hook is linked"); }
    } else skip();
  }
  void reset(int ci) {
    c(ci).~C();
    for (int id : m[ci]) { P.owner[id] = FREE; drop_held(id); }
    m[ci].clear();
    Quiet q_; if constexpr (SAFE) for (int i = 0; i < P.N; ++i) if (P.owner[i] == FREE && linked(i)) fail("is_linked", "element %d is still linked after its container was destroyed", i);
    memset(arena_at(coff[ci]), FILL_FRESH, sizeof(C));
  }
  void op_recreate(int ci) { reset(ci); construct(ci); }
  void op_ctor_range(const Step &s, int ci) {
    reset(ci);
    auto ids = free_list(s.b, (int)(s.c % 9)); auto v = ptrs(ids);
    PtrIter<E> b(v.data()), en(v.data() + v.size());
    if constexpr (STATEFUL) new (&c(ci)) C(b, en, VT(table(ci))); else new (&c(ci)) C(b, en);
    m[ci] = ids; own(ci);
  }
  void op_bulk(const Step &s, int ci) {
    auto ids = free_list(s.d, P.N >= 20000 && (s.c & 2) ? P.N : 8 + (int)(s.b % (P.N > 300 ? P.N / 2 : 64)));
    for (int id : ids) { int pos = (s.c & 1) ? 0 : (int)m[ci].size(); if constexpr (S && !LASTC) pos = 0; if (pos) { if constexpr (!S || LASTC) c(ci).push_back(e(id)); } else c(ci).push_front(e(id)); put(ci, pos, id); }
    SIM_PROBE("bulk insert");
  }
  // ------------------------------------------------------------ slist only
  void op_insert_after(const Step &s, int ci) {
    if constexpr (S) {
      int id = P.take_free(s.b); if (id < 0) return skip();
      int pos = (int)(s.c % (m[ci].size() + 1)); It r;
      if constexpr (!LASTC && !CT && !STATEFUL) { if (s.d & 1) r = C::s_insert_after(CIt(bat(ci, pos)), e(id)); else r = c(ci).insert_after(CIt(bat(ci, pos)), e(id)); }
      else r = c(ci).insert_after(CIt(bat(ci, pos)), e(id));
      put(ci, pos, id); expect_pos(ci, r, pos, "insert_after");
    } else skip();
  }
  void op_insert_after_range(const Step &s, int ci) {
    if constexpr (S) {
      auto ids = free_list(s.b, (int)(s.d % 7)); auto v = ptrs(ids);
      int pos = (int)(s.c % (m[ci].size() + 1));
      c(ci).insert_after(CIt(bat(ci, pos)), PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()));
      for (size_t i = 0; i < ids.size(); ++i) put(ci, pos + (int)i, ids[i]);
    } else skip();
  }
  void op_erase_after(const Step &s, int ci) {
    if constexpr (S) {
      int n = (int)m[ci].size(); if (!n) return skip();
      int pos = (int)(s.b % n); bool disp = s.d & 1, st = s.d & 8; (void)st; Dctx d{this, ci, (int)((s.d >> 1) % 3), {}};
      It r; CIt b(bat(ci, pos)); bool done = false;
      if constexpr (!LASTC && !CT && !STATEFUL) if (st) { if (disp) r = C::s_erase_after_and_dispose(b, Disposer{&d}); else r = C::s_erase_after(b); done = true; }
      if (!done) { if (disp) r = c(ci).erase_after_and_dispose(b, Disposer{&d}); else r = c(ci).erase_after(b); }
      vec<int> ids = cut(ci, pos, pos + 1, disp ? &d : nullptr);
      if (disp) settle(d, ids, "erase_after_and_dispose");
      expect_pos(ci, r, pos, "erase_after");
    } else skip();
  }
  void op_erase_after_range(const Step &s, int ci) {
    if constexpr (S) {
      int n = (int)m[ci].size();
      int i = (int)(s.b % (n + 1)), j = (int)(s.c % (n + 1)); if (i > j) std::swap(i, j);
      int kind = (int)(s.d % 4); Dctx d{this, ci, (int)((s.d >> 2) % 3), {}};
      CIt b(bat(ci, i)), en(cat(ci, j)); It r;
      if (kind == 0) r = c(ci).erase_after(b, en);
      else if (kind == 1) r = c(ci).erase_after(b, en, (typename C::size_type)(j - i));
      else { if constexpr (!LASTC && !CT && !STATEFUL) { if (kind == 3) r = C::s_erase_after_and_dispose(b, en, Disposer{&d}); else r = c(ci).erase_after_and_dispose(b, en, Disposer{&d}); } else r = c(ci).erase_after_and_dispose(b, en, Disposer{&d}); }
      vec<int> ids = cut(ci, i, j, kind >= 2 ? &d : nullptr);
      if (kind >= 2) settle(d, ids, "erase_after_and_dispose(range)");
      expect_pos(ci, r, i, "erase_after(range)");
    } else skip();
  }
  void op_splice_after_all(const Step &s, int a) {
    if constexpr (S) {
      int b = (a + 1 + (int)(s.b % 2)) % 3; int p = (int)(s.c % (m[a].size() + 1)), n = (int)m[b].size(); if (!same_traits(a, b)) return skip();
      CIt l; bool usel = s.d & 1;
      if (usel) c(a).splice_after(CIt(bat(a, p)), c(b), &l); else c(a).splice_after(CIt(bat(a, p)), c(b));
      mmove(a, p, b, 0, n);
      if (usel) expect_pos(a, l, p + n - 1, "splice_after: last inserted");
    } else skip();
  }
  void op_splice_after_one(const Step &s, int a) {
    if constexpr (S) {
      int b = (a + (int)(s.b % 3)) % 3; int n = (int)m[b].size(); if (!n) return skip(); if (!same_traits(a, b)) return skip();
      int p = (int)(s.c % (m[a].size() + 1)), i = (int)(s.d % n);
      if (a == b && p == i + 1) p = i;
      c(a).splice_after(CIt(bat(a, p)), c(b), CIt(bat(b, i)));
      mmove(a, p, b, i, i + 1);
    } else skip();
  }
  void op_splice_after_range(const Step &s, int a) {
    if constexpr (S) {
      int b = (a + (int)(s.b % 3)) % 3; int n = (int)m[b].size(); if (!same_traits(a, b)) return skip();
      int i = (int)((s.b >> 2) % (n + 1)), j = (int)(s.d % (n + 1)); if (i > j) std::swap(i, j);
      int p = (int)(s.c % (m[a].size() + 1));
      if (a == b && p > i && p <= j) p = i;
      if ((s.d >> 6) & 1) c(a).splice_after(CIt(bat(a, p)), c(b), CIt(bat(b, i)), CIt(bat(b, j)), (typename C::size_type)(j - i));
      else c(a).splice_after(CIt(bat(a, p)), c(b), CIt(bat(b, i)), CIt(bat(b, j)));
      mmove(a, p, b, i, j);
    } else skip();
  }
  void op_previous(const Step &s, int ci) {
    if constexpr (S) {
      int n = (int)m[ci].size(); int i = (int)(s.b % (n + 1)), f = (int)(s.c % (i + 1));
      expect_pos(ci, c(ci).previous(at(ci, i)), i - 1, "previous");
      expect_pos(ci, cc(ci).previous(cat(ci, i)), i - 1, "previous const");
      expect_pos(ci, c(ci).previous(CIt(bat(ci, f)), at(ci, i)), i - 1, "previous from");
      expect_pos(ci, cc(ci).previous(CIt(bat(ci, f)), cat(ci, i)), i - 1, "previous from const");
    } else skip();
  }
  NP node_of(int id, int ci) { if constexpr (STATEFUL) return NP(table(ci)->nodes + id); else return VT::to_node_ptr(e(id)); }
  vec<int> chain(const Step &s, int k, int ci) {
    auto ids = free_list(s.b, k);
    for (size_t i = 0; i + 1 < ids.size(); ++i) NT::set_next(node_of(ids[i], ci), node_of(ids[i + 1], ci));
    return ids;
  }
  void op_incorporate(const Step &s, int ci) {
    if constexpr (S) {
      auto ids = chain(s, 1 + (int)(s.d % 6), ci); if (ids.empty()) return skip();
      int pos = (int)(s.c % (m[ci].size() + 1));
      if ((s.d >> 5) & 1) c(ci).incorporate_after(CIt(bat(ci, pos)), node_of(ids.front(), ci), node_of(ids.back(), ci));
      else c(ci).incorporate_after(CIt(bat(ci, pos)), node_of(ids.front(), ci), node_of(ids.back(), ci), (typename C::size_type)ids.size());
      for (size_t i = 0; i < ids.size(); ++i) put(ci, pos + (int)i, ids[i]);
    } else skip();
  }
  void op_ctor_chain(const Step &s, int ci) {
    if constexpr (S) {
      reset(ci);
      auto ids = chain(s, (int)(s.d % 6), ci);
      NP f = ids.empty() ? NP() : node_of(ids.front(), ci), l = ids.empty() ? NP() : node_of(ids.back(), ci);
      if constexpr (STATEFUL) new (&c(ci)) C(f, l, (typename C::size_type)ids.size(), VT(table(ci))); else new (&c(ci)) C(f, l, (typename C::size_type)ids.size());
      m[ci] = ids; own(ci);
    } else skip();
  }

  void step(const Step &s) {
    int ci = (int)(s.a % 3);
    switch (s.op) {
    case L_PUSH_FRONT: op_push(s, ci, true); break;
    case L_PUSH_BACK: op_push(s, ci, false); break;
    case L_POP_FRONT: op_pop(s, ci, true); break;
    case L_POP_BACK: op_pop(s, ci, false); break;
    case L_INSERT: op_insert(s, ci); break;
    case L_INSERT_RANGE: op_insert_range(s, ci); break;
    case L_ERASE: op_erase(s, ci); break;
    case L_ERASE_RANGE: op_erase_range(s, ci); break;
    case L_CLEAR: op_clear(s, ci); break;
    case L_ASSIGN: op_assign(s, ci); break;
    case L_CLONE: op_clone(s, ci); break;
    case L_SPLICE_ALL: op_splice_all(s, ci); break;
    case L_SPLICE_ONE: op_splice_one(s, ci); break;
    case L_SPLICE_RANGE: op_splice_range(s, ci); break;
    case L_SORT: op_sort(s, ci); break;
    case L_MERGE: op_merge(s, ci); break;
    case L_REVERSE: c(ci).reverse(); std::reverse(m[ci].begin(), m[ci].end()); break;
    case L_REMOVE: op_remove(s, ci); break;
    case L_REMOVE_IF: op_remove_if(s, ci); break;
    case L_UNIQUE: op_unique(s, ci); break;
    case L_SHIFT: op_shift(s, ci); break;
    case L_ITERTO: op_iterto(s, ci); break;
    case L_SWAP: op_swap(s, ci); break;
    case L_MOVE_ASSIGN: op_move_assign(s, ci); break;
    case L_MOVE_CTOR: op_move_ctor(ci); break;
    case L_COMPARE: op_compare(s, ci); break;
    case L_HOLD: op_hold(s, ci); break;
    case L_DESTROY_ELEM: op_destroy_elem(s); break;
    case L_HOOK_UNLINK: op_hook_unlink(s); break;
    case L_MISUSE: op_misuse(s, ci); break;
    case L_RELOCATE: op_relocate(); break;
    case L_READERS: op_readers(s); break;
    case L_PARALLEL: op_parallel(s); break;
    case L_REKEY: op_rekey(s); break;
    case L_SWAP_NODES: op_swap_nodes(s); break;
    case L_HOOK_COPY: op_hook_copy(s); break;
    case L_RECREATE: op_recreate(ci); break;
    case L_CTOR_RANGE: op_ctor_range(s, ci); break;
    case L_BULK: op_bulk(s, ci); break;
    case L_INSERT_AFTER: op_insert_after(s, ci); break;
    case L_INSERT_AFTER_RANGE: op_insert_after_range(s, ci); break;
    case L_ERASE_AFTER: op_erase_after(s, ci); break;
    case L_ERASE_AFTER_RANGE: op_erase_after_range(s, ci); break;
    case L_SPLICE_AFTER_ALL: op_splice_after_all(s, ci); break;
    case L_SPLICE_AFTER_ONE: op_splice_after_one(s, ci); break;
    case L_SPLICE_AFTER_RANGE: op_splice_after_range(s, ci); break;
    case L_PREVIOUS: op_previous(s, ci); break;
    case L_INCORPORATE: op_incorporate(s, ci); break;
    case L_CTOR_CHAIN: op_ctor_chain(s, ci); break;
    }
  }
  static void run(const Trace &t) {
    static ListEngine *w = nullptr;
    delete w; w = new ListEngine;
    w->start(t);
    w->oracle();
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i];
      w->si = i; g.slot->step = i; g.in_step = true; w->skipped = false; w->P.step_begin();
      op_begin(list_opname(s.op));
      log("step %u %s a=%u b=%u c=%u d=%u fault=%u@%u", i, list_opname(s.op), s.a, s.b, s.c, s.d, s.fk, s.fn);
      w->step(s);
      w->P.step_end(); ++g.slot->steps; if (w->skipped) ++g.slot->op_skipped; else ++g.slot->op_done;
      if (oracle_due(t, i, L_READERS)) w->oracle(); else w->forget_unlinked();
    }
    op_begin("teardown");
    for (int i = 0; i < 3; ++i) w->c(i).~C();
    for (int i = 0; i < w->P.N; ++i) if (w->P.owner[i] != DEAD) {
      if constexpr (SAFE) if (w->linked(i)) fail("is_linked", "element %d is still linked after its container was destroyed", i);
      w->P.ptr(i)->~E();
    }
  }
  static void gen(Rng &r, const Mode &md, Trace &t) {
    Focus f = focus_of(md.prop);
    bool big = r.chance(1, f.bulk ? 3 : 20);
    int n = big ? (int)r.range(60, 200) : (int)r.range(3, r.chance(1, 3) ? 40 : 14);
    const bool huge = r.chance(1, f.bulk ? 150 : 500);
    if (huge) { big = true; n = (int)r.range(300, 2500); }
    // very rarely tens of thousands of elements: counters, depth tables and the like with a limit show there
    const bool giant = !STATEFUL && r.chance(1, f.positional || f.compound || f.bulk ? 3000 : 20000);
    if (giant) { big = true; n = sizeof(typename C::size_type) < 4 ? (int)r.range(20000, 60000) : (int)r.range(r.chance(1, 3) ? 20000 : 66000, 72000); }
    int kr = r.chance(1, 3) ? 3 + (int)r.below(5) : r.chance(1, 2) ? n : 4 * n + 4;
    t.params = {(u32)n, (u32)kr};
    OpMix w(L_NOPS);
    static const u32 so = S ? 1 : 0;
    static const u32 base[L_NOPS] = {
      14, (!S || LASTC) ? 14u : 0u, 5, S ? 0u : 5u, 14, 5, 10, 4, 1, 2,
      3, 4, 6, 6, 4, 5, 3, 2, 4, 3, 4,
      5, 4, 3, 2, 2, 4, 4, AUTO && NODEOPS ? 6u : 0u, SAFE ? 3u : 0u, RELOC ? 2u : 0u,
      2, 1, 3, NODEOPS && !LINEAR && !LASTC ? 5u : 0u, HOOK ? 2u : 0u, 2, 2, 0,
      10 * so, 4 * so, 6 * so, 4 * so, 4 * so, 6 * so, 6 * so, 3 * so, 4 * so, 2 * so};
    for (u32 i = 0; i < L_NOPS; ++i) w.set(i, base[i]);
    w.swarm(r);
    w.w[L_PUSH_FRONT] = std::max(w.w[L_PUSH_FRONT], 10u); w.w[L_INSERT] = std::max(w.w[L_INSERT], 10u);
    if (big) { w.w[L_BULK] = 20; w.w[L_CLEAR] = 0; }
    if (giant) { w.w[L_BULK] = 60; w.w[L_RECREATE] = w.w[L_READERS] = w.w[L_PARALLEL] = 0; }
    auto boost_ = [&](u32 op, u32 v) { if (base[op]) w.w[op] = std::max(w.w[op], v); };
    if (f.readers) boost_(L_READERS, 30);
    if (f.parallel) boost_(L_PARALLEL, 40);
    if (f.reloc) boost_(L_RELOCATE, 25);
    if (f.clone) boost_(L_CLONE, 40);
    if (f.transfer) for (u32 op : {L_SPLICE_ALL, L_SPLICE_ONE, L_SPLICE_RANGE, L_SPLICE_AFTER_ALL, L_SPLICE_AFTER_ONE, L_SPLICE_AFTER_RANGE, L_MERGE}) boost_(op, 18);
    if (f.iters) { boost_(L_HOLD, 30); boost_(L_ITERTO, 15); }
    if (f.swapmove) { boost_(L_SWAP, 20); boost_(L_MOVE_ASSIGN, 15); boost_(L_MOVE_CTOR, 15); boost_(L_RECREATE, 5); }
    if (f.positional) for (u32 op : {L_SHIFT, L_REVERSE, L_SORT, L_PREVIOUS, L_INCORPORATE, L_CTOR_CHAIN, L_UNIQUE}) boost_(op, 14);
    if (f.dispose) for (u32 op : {L_POP_FRONT, L_POP_BACK, L_ERASE, L_ERASE_RANGE, L_CLEAR, L_ASSIGN, L_REMOVE, L_REMOVE_IF, L_UNIQUE, L_CLONE, L_ERASE_AFTER, L_ERASE_AFTER_RANGE}) boost_(op, 10);
    if (f.safe) { boost_(L_MISUSE, 20); boost_(L_DESTROY_ELEM, 10); boost_(L_RECREATE, 4); boost_(L_HOOK_COPY, 8); }
    if (f.autoun) { boost_(L_HOOK_UNLINK, 25); boost_(L_DESTROY_ELEM, 20); boost_(L_HOOK_COPY, 8); }
    if (f.nodes) boost_(L_SWAP_NODES, 40);
    if (f.compound) for (u32 op : {L_SORT, L_MERGE, L_REMOVE, L_REMOVE_IF, L_UNIQUE}) boost_(op, 20);
    u32 fprob = f.faults ? 50 : 8;
    int steps = giant ? (int)r.range(5, 11) : (int)r.range(8, huge ? 22 : 60);
    const u32 span = giant ? 1u << 20 : 4096;
    if (giant) for (u32 op : {L_SORT, L_MERGE, L_UNIQUE, L_REMOVE_IF, L_REVERSE, L_SPLICE_ALL, L_SWAP}) if (base[op]) w.w[op] = std::max(w.w[op], op == L_SORT ? 140u : 15u);
    bool anyfib = false;
    for (int i = 0; i < steps; ++i) {
      Step s;
      s.op = i < 3 ? (big ? (u32)L_BULK : (u32)L_PUSH_FRONT) : w.pick(r);
      s.a = r.below(64); if (r.chance(1, 2)) s.a -= s.a % 3;
      s.b = r.below(span); s.c = r.below(span); s.d = r.below(span);
      if (r.below(100) < fprob) {
        s.fk = s.op == L_CLONE ? (u32)F_CLONE : s.op == L_REMOVE_IF ? (u32)F_PRED : s.op == L_UNIQUE || s.op == L_REMOVE ? (u32)F_EQ : (u32)F_CMP;
        s.fn = r.chance(1, 2) ? r.range(1, 4) : r.range(1, giant ? 400000 : 24);
      }
      anyfib |= s.op == L_READERS || s.op == L_PARALLEL;
      t.steps.push_back(s);
    }
    if (anyfib) { u32 k = r.chance(1, 4) ? 6 : 250; u32 style = r.below(3); for (u32 i = 0; i < k; ++i) t.sched.push_back(r.below(8) | ((style == 0 ? 0 : style == 1 ? r.below(4) : r.below(40)) << 3)); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "list", gen, run, list_opname}; }
};
} // namespace sim
#define SIM_LIST_CONFIG(CFG, NAME) static ::sim::Registrar reg_##CFG(::sim::ListEngine<CFG>::entry(NAME));

// Simulation of the ordered containers (set/multiset facades over every tree).
// World: three containers of one type, one of another comparison type and the
// opposite multiplicity, a pool of elements, held iterators, a sorted reference
// model.  Every step performs one API operation (possibly with an injected
// fault, a reader batch, a relocation ...), then the full oracle runs.
#pragma once
#include "world.hpp"
#include <boost/move/utility_core.hpp>

namespace sim {
enum TreeKind { K_RB, K_AVL, K_SG, K_SPLAY, K_TREAP, K_BS };

enum TreeOp {
  T_INSERT, T_INSERT_HINT, T_INSERT_RANGE, T_CHECK_COMMIT, T_INSERT_BEFORE, T_PUSH_BACK, T_PUSH_FRONT,
  T_ERASE_IT, T_ERASE_RANGE, T_ERASE_KEY, T_CLEAR, T_LOOKUP, T_BOUNDED, T_SWAP, T_MOVE_ASSIGN, T_MOVE_CTOR,
  T_CLONE, T_MERGE, T_REPLACE, T_REMOVE_NODE, T_UNLINK_LEFTMOST, T_REBALANCE, T_REBALANCE_SUB, T_SPLAY,
  T_BALANCE_FACTOR, T_RECREATE, T_CTOR_RANGE, T_HOLD, T_DESTROY_ELEM, T_HOOK_UNLINK, T_MISUSE, T_RELOCATE,
  T_READERS, T_PARALLEL, T_REKEY, T_SWAP_NODES, T_HOOK_COPY, T_COMPARE, T_BULK, T_ITERTO, T_ALT_INSERT, T_ALT_ERASE, T_STORM, T_NOPS
};
inline const char *tree_opname(u32 o) {
  static const char *n[] = {"insert", "insert_hint", "insert_range", "insert_check+commit", "insert_before", "push_back", "push_front",
    "erase(it)", "erase(range)", "erase(key)", "clear", "lookup", "bounded_range", "swap", "move_assign", "move_construct",
    "clone_from", "merge", "replace_node", "remove_node", "unlink_leftmost", "rebalance", "rebalance_subtree", "splay",
    "balance_factor", "destroy+recreate", "construct(range)", "hold_iterator", "destroy_element", "hook_unlink", "misuse", "relocate",
    "concurrent_readers", "parallel_containers", "rekey_free", "swap_nodes", "hook_copy", "compare", "bulk_insert", "iterator_to", "alt_insert", "alt_erase", "access_storm"};
  return o < T_NOPS ? n[o] : "?";
}

template <class Cfg> struct TreeEngine {
  typedef typename Cfg::E E;
  typedef typename Cfg::C C;
  typedef typename Cfg::A A;
  typedef typename C::iterator It;
  typedef typename C::const_iterator CIt;
  typedef typename C::node_traits NT;
  typedef typename C::node_ptr NP;
  typedef typename C::key_type KT;
  static const int KIND = Cfg::kind;
  static const bool UNIQUE = Cfg::unique;
  static const bool CT = C::constant_time_size;
  typedef typename C::value_traits VT;
  typedef typename C::node_algorithms NA;
  static const bool STATEFUL = C::stateful_value_traits;
  static const bool HOOK = requires { typename E::hook_t; };       // otherwise: bare nodes
  static const int LM = C::value_traits::link_mode;
  static const bool SAFE = LM != boost::intrusive::normal_link;
  static const bool AUTO = LM == boost::intrusive::auto_unlink;
  static const bool RELOC = Cfg::reloc;
  static const bool ANY = Cfg::any;
  static const bool KOV = std::is_same<KT, int>::value;

  Pool<E> P;
  vec<int> m[4];
  int mode[4], pmode;
  float alpha[3], abound[3] = {0, 0, 0}; int sgmax[3]; bool sgloose[3] = {}; size_t sglast[3] = {};   // abound: a moved-from tree may still have the shape of the other tree's balance factor
  size_t coff[4], hoff;
  const Trace *tr = nullptr; u32 si = 0;
  size_t schedpos = 0;
  int keyrange = 8;

  C &c(int i) { return *(C *)arena_at(coff[i]); }
  A &alt() { return *(A *)arena_at(coff[3]); }
  const C &cc(int i) { return c(i); }
  E &e(int i) { return P.e(i); }

  // ------------------------------------------------------------ held iterators
  enum { NHELD = 3 };
  struct Held { It it; CIt cit; };
  bool hact[NHELD]; int hid[NHELD];
  Held &held(int k) { return *(Held *)arena_at(hoff + k * ((sizeof(Held) + 15) / 16 * 16)); }

  // ------------------------------------------------------------ construction
  template <class X> void construct(X *where, int ci, int md) {
    if constexpr (STATEFUL) { if constexpr (KIND == K_TREAP) new (where) X(typename X::key_compare(md), PrioCmp(pmode), VT(table(ci))); else new (where) X(typename X::key_compare(md), VT(table(ci))); }
    else if constexpr (KIND == K_TREAP) new (where) X(typename X::key_compare(md), PrioCmp(pmode));
    else new (where) X(typename X::key_compare(md));
  }
  size_t taboff[2] = {0, 0};
  int tt[4] = {0, 0, 0, 0};           // stateful value traits: which side table each container was given
  auto *tab(int k) { if constexpr (STATEFUL) return (typename VT::table *)arena_at(taboff[k]); else return (char *)nullptr; }
  auto *table(int ci) { return tab(tt[ci]); }
  bool same_traits(int a, int b) { return tt[a] == tt[b]; }   // elements may only be transferred between containers whose traits agree
  bool hook_linked(int id) {
    if constexpr (STATEFUL) return !NA::inited(NP(tab(0)->nodes + id)) || (taboff[1] && !NA::inited(NP(tab(1)->nodes + id)));
    else if constexpr (!HOOK) return !NA::inited(VT::to_node_ptr(e(id)));
    else return E::hook(e(id)).is_linked();
  }
  auto value_ptr(NP p) { if constexpr (STATEFUL) return VT(tab(taboff[1] && (size_t)(p - tab(1)->nodes) < MAXTAB)).to_value_ptr(p); else return VT::to_value_ptr(p); }
  void start(const Trace &t) {
    tr = &t;
    int n = (int)t.param(0, 12); keyrange = (int)t.param(1, 8);
    u32 md = t.param(2); pmode = (int)t.param(3) & 1;
    P.setup(n);
    if constexpr (STATEFUL) {
      bool two = mix(t.seed, 99) % 4 == 0;
      for (int k = 0; k < 1 + two; ++k) {
        taboff[k] = arena_alloc(sizeof(typename VT::table), 16);
        new (arena_at(taboff[k])) typename VT::table;
        for (int i = 0; i < n + 2; ++i) { NA::init(NP(tab(k)->nodes + i)); tab(k)->elems[i] = i < n ? P.ptr(i) : nullptr; }
      }
      if (two) { tt[1] = 1; tt[2] = (int)(mix(t.seed, 98) & 1); tt[3] = (int)(mix(t.seed, 97) & 1); SIM_PROBE("containers with different stateful traits"); }
    }
    for (int i = 0; i < 4; ++i) { coff[i] = arena_alloc(std::max(sizeof(C), sizeof(A)), 16); mode[i] = (md >> (2 * i)) % 4; if (mode[i] > 2) mode[i] = 0; }
    hoff = arena_alloc(NHELD * ((sizeof(Held) + 15) / 16 * 16), 16);
    for (int k = 0; k < NHELD; ++k) { new (&held(k)) Held; hact[k] = false; }
    for (int i = 0; i < 3; ++i) { construct(&c(i), i, mode[i]); alpha[i] = 0.70711f; sgmax[i] = 0; }
    construct(&alt(), 3, mode[3]);
    Rng r(mix(t.seed, 4242));
    for (int i = 0; i < n; ++i) P.create(i, (int)r.below(keyrange), (int)r.below(t.param(4, 16) + 1));
  }
  // ------------------------------------------------------------ model
  bool uniq(int ci) const { return ci < 3 ? UNIQUE : !UNIQUE; }
  bool lt(int ci, int ka, int kb) const { return key_less(mode[ci], ka, kb); }
  int lower(int ci, int k) { size_t i = 0; while (i < m[ci].size() && lt(ci, P.key[m[ci][i]], k)) ++i; return (int)i; }
  int upper(int ci, int k) { size_t i = 0; while (i < m[ci].size() && !lt(ci, k, P.key[m[ci][i]])) ++i; return (int)i; }
  int hlower(int ci, HKey h) { size_t i = 0; while (i < m[ci].size() && key_less(mode[ci] == 1, P.key[m[ci][i]] / h.grain, h.key / h.grain)) ++i; return (int)i; }
  int hupper(int ci, HKey h) { size_t i = 0; while (i < m[ci].size() && !key_less(mode[ci] == 1, h.key / h.grain, P.key[m[ci][i]] / h.grain)) ++i; return (int)i; }
  void put(int ci, int pos, int id) { m[ci].insert(m[ci].begin() + pos, id); P.owner[id] = ci; if (ci < 3) sgmax[ci] = std::max(sgmax[ci], (int)m[ci].size()); }
  void take(int ci, int pos) { int id = m[ci][pos]; m[ci].erase(m[ci].begin() + pos); P.owner[id] = FREE; drop_held(id); }
  int index(int ci, int id) { for (size_t i = 0; i < m[ci].size(); ++i) if (m[ci][i] == id) return (int)i; return -1; }
  void forget_unlinked() { for (int k = 0; k < NHELD; ++k) if (hact[k] && (P.owner[hid[k]] < 0 || P.owner[hid[k]] > 2)) hact[k] = false; }
  void drop_held(int id) { for (int k = 0; k < NHELD; ++k) if (hact[k] && hid[k] == id) hact[k] = false; }
  It at(int ci, int i) { Quiet q; It it = c(ci).begin(); while (i-- > 0) ++it; return it; }
  CIt cat(int ci, int i) { return CIt(at(ci, i)); }
  bool valid_unique_pos(int ci, int k) { int l = lower(ci, k); return l == upper(ci, k); }

  // where an iterator points: element index in model or size() for end; fails if it points elsewhere
  template <class I> int pos_of(int ci, I it, const char *what) {
    Quiet q;
    if (CIt(it) == cc(ci).cend()) return (int)m[ci].size();
    int id = P.id_fast(&*it);
    int i = id >= 0 ? index(ci, id) : -1;
    if (i < 0) fail("bad-iterator", "%s returned an iterator to %s", what, id < 0 ? "no element" : "an element that is not in the container");
    return i;
  }
  template <class I> void expect_pos(int ci, I it, int want, const char *what) {
    int p = pos_of(ci, it, what);
    if (p != want) fail("wrong-result", "%s on container %d returned position %d, expected %d (contents %s)", what, ci, p, want, fmt_ids(m[ci]).c_str());
  }

  // ------------------------------------------------------------ disposer / cloner
  struct Dctx { TreeEngine *w; int ci; int action; vec<int> got; vec<int> sunk; };
  struct Disposer {
    Dctx *d;
    template <class Ptr> void operator()(Ptr p) const { d->w->on_dispose(*d, to_raw(p)); }
  };
  vec<int> removing;                       // ids the current operation may dispose
  void on_dispose(Dctx &d, E *p) {
    int id = P.id_of(p);
    if (id < 0) fail("dispose", "disposer called with a pointer to %s", id == -2 ? "an already destroyed element" : "something that is not an element");
    if (d.got.size() < 512) for (int x : d.got) if (x == id) fail("dispose", "disposer called twice for element %d", id);
    d.got.push_back(id);
    if constexpr (SAFE && !ANY) if (hook_linked(id)) fail("dispose", "element %d handed to the disposer while still linked", id);
    if (d.action == 1) P.kill(id);
    else if (d.action == 2) {                      // link it somewhere else at once
      Quiet q;
      int s = (d.ci + 1) % 3;
      if (insert_into(s, *p)) d.sunk.push_back(id);
    }
  }
  bool insert_into(int ci, E &x) {
    if constexpr (UNIQUE) return c(ci).insert(x).second;
    else { c(ci).insert(x); return true; }
  }
  // account for disposed ids after the operation: d.ci's model has already been reduced
  void settle(Dctx &d, const vec<int> &want, const char *what) {
    expect_ids(sorted(d.got), sorted(want), "dispose", what);
    int s = (d.ci + 1) % 3;
    for (int id : d.got) {
      drop_held(id);
      bool sunk = std::find(d.sunk.begin(), d.sunk.end(), id) != d.sunk.end();
      if (d.action == 2) {
        if (sunk) put(s, upper(s, P.key[id]), id);
      }
    }
  }
  struct Cctx { TreeEngine *w; vec<int> src, dst; int cur = 0; };
  E *do_clone(Cctx &x, const E &s) {
    int id = P.id_of(&s);
    if (id < 0) fail("clone", "cloner called with something that is not an element");
    fcall(F_CLONE);
    int n = -1;
    for (int i = x.cur; i < P.N; ++i) if (P.pick(i) && !P.tmpmark[i]) { n = i; break; }
    if (n >= 0) x.cur = n + 1;
    if (n < 0) fail("clone", "cloner called more often than there are source elements");
    P.tmpmark[n] = 1;
    P.rekey(n, P.key[id], P.prio[id]);
    x.src.push_back(id); x.dst.push_back(n);
    return P.ptr(n);
  }
  struct Cloner { Cctx *x; E *operator()(const E &s) const { return x->w->do_clone(*x, s); } };
  struct NCloner { Cctx *x; E *operator()(E &s) const { return x->w->do_clone(*x, s); } };

  // ------------------------------------------------------------ key arguments
  struct KeyArg { E probe; int k; };
  static const KT &ka(KeyArg &a) { if constexpr (KOV) return a.k; else return a.probe; }
  struct MakeKey { alignas(E) char buf[sizeof(KeyArg)]; KeyArg *a; MakeKey(int k) { a = new (buf) KeyArg; a->k = k; a->probe.key = k; a->probe.prio = 0; } ~MakeKey() { a->~KeyArg(); } const KT &get() const { return ka(*a); } };
  HKey hk(int ci, u32 sel, int k) { HKey h; h.key = k; h.grain = mode[ci] == 2 ? 4 : (sel % 3 == 0 ? 4 : 1); return h; }
  HKey hk_same(int ci, int k) { HKey h; h.key = k; h.grain = mode[ci] == 2 ? 4 : 1; return h; }
  HCmp hc(int ci) { return HCmp{mode[ci] == 1 ? 1 : 0}; }

  // ------------------------------------------------------------ oracle
  void fail_shape(const char *what, int ci) { fail("shape", "container %d: %s (n=%zu)", ci, what, m[ci].size()); }
  struct Walk { int h; int bh; long n; };
  template <class X> Walk walk(NP p, NP parent, int ci, int depth, const X &pc) {
    Walk r{0, 1, 0};
    if (!p) return r;
    if (depth > (int)m[ci].size() + 2) fail_shape("tree deeper than its element count", ci);
    if (NT::get_parent(p) != parent) fail_shape("a child's parent link does not point to its parent", ci);
    Walk a = walk(NP(NT::get_left(p)), p, ci, depth + 1, pc), b = walk(NP(NT::get_right(p)), p, ci, depth + 1, pc);
    r.h = 1 + std::max(a.h, b.h); r.n = 1 + a.n + b.n;
    if constexpr (KIND == K_RB) {
      bool red = NT::get_color(p) == NT::red();
      if (a.bh != b.bh) fail_shape("red-black: unequal black heights", ci);
      if (red) {
        NP l = NT::get_left(p), q = NT::get_right(p);
        if ((l && NT::get_color(l) == NT::red()) || (q && NT::get_color(q) == NT::red())) fail_shape("red-black: red node with a red child", ci);
      }
      r.bh = a.bh + (red ? 0 : 1);
    }
    if constexpr (KIND == K_AVL) {
      int d = b.h - a.h;
      if (d < -1 || d > 1) fail_shape("AVL: subtree heights differ by more than one", ci);
      if (NT::get_balance(p) != (d < 0 ? NT::negative() : d > 0 ? NT::positive() : NT::zero())) fail_shape("AVL: stored balance factor is wrong", ci);
    }
    if constexpr (KIND == K_TREAP) {
      E *me = (E *)to_raw(value_ptr(p));
      for (NP ch : {NP(NT::get_left(p)), NP(NT::get_right(p))}) if (ch) {
        E *ce = (E *)to_raw(value_ptr(ch));
        if (pc(*ce, *me)) fail_shape("treap: a child has higher priority than its parent", ci);
      }
    }
    return r;
  }
  int height_of(int ci) { Quiet q; NP h = c(ci).end().pointed_node(); NP root = NT::get_parent(h); return walk(root, h, ci, 1, PrioCmp(pmode)).h; }
  template <class X> void check_one(X &x, int ci) {
    typedef typename X::iterator XI;
    const X &cx = x;
    size_t n = m[ci].size();
    // forward
    size_t k = 0;
    XI it = x.begin();
    for (; it != x.end(); ++it, ++k) {
      if (k >= n) fail("contents", "container %d iterates past its %zu elements", ci, n);
      int id = P.id_fast(&*it);
      if (id != m[ci][k]) fail("contents", "container %d: element at position %zu is %d, expected %d (model %s)", ci, k, id, m[ci][k], fmt_ids(m[ci]).c_str());
    }
    if (k != n) fail("contents", "container %d iterates over %zu elements, expected %zu", ci, k, n);
    // backward
    for (k = n; k > 0; --k) {
      --it;
      if (&*it != P.ptr(m[ci][k - 1])) fail("contents", "container %d: backward iteration differs at position %zu", ci, k - 1);
    }
    if (it != x.begin()) fail("contents", "container %d: backward iteration does not end at begin()", ci);
    if (cx.size() != n) fail("size", "container %d: size() is %zu, expected %zu", ci, (size_t)cx.size(), n);
    if (cx.empty() != (n == 0)) fail("size", "container %d: empty() is %d with %zu elements", ci, (int)cx.empty(), n);
    check_ends(x, n ? P.ptr(m[ci][0]) : (E *)nullptr, n ? P.ptr(m[ci][n - 1]) : (E *)nullptr, ci);
    if (n) {
      if (&*cx.cbegin() != P.ptr(m[ci][0]) || &*cx.rbegin() != P.ptr(m[ci][n - 1]) || &*--cx.end() != P.ptr(m[ci][n - 1])) fail("contents", "container %d: begin/rbegin/--end are wrong", ci);
      if (cx.root() == cx.end() || x.root() != cx.root() || cx.croot() != cx.root()) fail("contents", "container %d: root() is end() with %zu elements", ci, n);
    } else if (cx.cbegin() != cx.cend() || !(cx.crbegin() == cx.crend())) fail("contents", "container %d: empty but begin != end", ci);
    if (cx.key_comp().mode != mode[ci] || cx.value_comp().key_comp().mode != mode[ci]) fail("comparator", "container %d: comparison object is not the one it was given", ci);
    if constexpr (KIND == K_TREAP) {
      if (cx.priority_comp().mode != pmode) fail("comparator", "container %d: priority object changed", ci);
      if (x.top() != x.root() || cx.top() != cx.root() || cx.ctop() != cx.root()) fail("contents", "container %d: top() is not the root", ci);
      if (n ? &*x.rtop() != &*x.top() || &*cx.rtop() != &*cx.ctop() || &*cx.crtop() != &*cx.ctop() : x.rtop() != x.rend() || cx.rtop() != cx.rend() || cx.crtop() != cx.crend()) fail("contents", "container %d: rtop() does not denote the element with the highest priority", ci);
    }
    cx.check();
    NP h = x.end().pointed_node();
    NP root = NT::get_parent(h);
    Walk w = walk(root, h, ci, 1, PrioCmp(pmode));
    if ((size_t)w.n != n) fail_shape("number of nodes reachable from the root differs from the element count", ci);
    double lg = std::log2((double)n + 1);
    if (KIND == K_RB && w.h > 2 * lg + 0.001) fail_shape("red-black height exceeds 2*log2(n+1)", ci);
    if (KIND == K_AVL && n && w.h > 1.4405 * std::log2((double)n + 2)) fail_shape("AVL height exceeds 1.44*log2(n+2)", ci);
    if constexpr (KIND == K_SG) if (ci < 3 && std::fabs(cx.balance_factor() - alpha[ci]) > 1e-4) fail("balance-factor", "container %d: balance_factor() is %g, expected %g", ci, cx.balance_factor(), alpha[ci]);
    if constexpr (KIND == K_SG) if (ci < 3 && !n) { sgloose[ci] = false; sglast[ci] = 0; }
    if constexpr (KIND == K_SG) if (ci < 3 && n) {
      double a = std::max(alpha[ci], abound[ci]), mx = std::max<double>(sgmax[ci], n);
      if (n < sglast[ci]) sgloose[ci] = true;   // erasures happened since the container was last empty
      sglast[ci] = n;
      // the library approximates log2 to a percent or so; erasures may leave a tree one level deeper until it is rebuilt
      double bound = std::floor((a > 0.9 ? 1.08 : 1.03) * std::log(mx) / -std::log(a) + 0.05) + (n == (size_t)mx && !sgloose[ci] ? 1 : 2);
      if (w.h > bound) fail_shape("scapegoat height exceeds log_{1/alpha}(max size)+1 (+1 after erasures)", ci);
    }
    g.states.add(mix(mix(hash_str(tr->cfg.c_str()), ci), shape_hash(root)));
    if constexpr (X::has_container_from_iterator) {
      if (&X::container_from_end_iterator(x.end()) != &x || &X::container_from_end_iterator(cx.cend()) != &cx) fail("container_from", "container_from_end_iterator does not return container %d", ci);
      if (n) {
        size_t j = (si * 7 + ci) % n;
        XI p = x.iterator_to(e(m[ci][j]));
        if (&X::container_from_iterator(p) != &x) fail("container_from", "container_from_iterator does not return container %d", ci);
      }
    }
  }
  u64 shape_hash(NP p) {
    if (!p) return 7;
    E *me = (E *)to_raw(value_ptr(p));
    return mix(mix(shape_hash(NP(NT::get_left(p))), (u64)me->key * 2654435761u + 1), shape_hash(NP(NT::get_right(p))) * 31 + 5);
  }
  void oracle() {
    Quiet q;
    P.verify_data();
    for (int i = 0; i < 3; ++i) check_one(c(i), i);
    check_one(alt(), 3);
    for (int i = 0; i < 4; ++i) {
      for (size_t k = 0; k < m[i].size(); ++k) if (P.owner[m[i][k]] != i) fail("harness", "model owner mismatch");
      if (si % 4 == 0 || true)
        for (size_t k = 1; k < m[i].size(); ++k) {
          int a = P.key[m[i][k - 1]], b = P.key[m[i][k]];
          if (lt(i, b, a) || (uniq(i) && !lt(i, a, b))) fail("harness", "model of container %d is not ordered", i);
        }
    }
    if constexpr (SAFE) {
      for (int i = 0; i < P.N; ++i) if (P.owner[i] != DEAD) {
        bool l = hook_linked(i);
        if (l != (P.owner[i] >= 0)) fail("is_linked", "element %d: is_linked() is %d but it is %s", i, (int)l, P.owner[i] >= 0 ? "in a container" : "in no container");
      }
    }
    for (int k = 0; k < NHELD; ++k) if (hact[k]) {
      int id = hid[k], ci = P.owner[id];
      if (ci < 0 || ci > 2) { hact[k] = false; continue; }
      Held &H = held(k);
      if (&*H.it != P.ptr(id) || &*H.cit != P.ptr(id)) fail("held-iterator", "an iterator taken earlier no longer denotes element %d", id);
      int j = index(ci, id);
      It nx = H.it; ++nx; expect_pos(ci, nx, j + 1, "++ of a held iterator");
      if (j) { CIt pv = H.cit; --pv; expect_pos(ci, pv, j - 1, "-- of a held iterator"); }
    }
    lognum(0x51); for (int i = 0; i < 4; ++i) { for (int id : m[i]) lognum(id * 4 + i); lognum(999); }
  }
  // after a fault inside a compound operation: adopt what the container holds,
  // provided nothing was lost, duplicated or disordered
  vec<int> contents(int ci) {
    Quiet q; vec<int> v;
    auto scan = [&](auto &x) { for (auto it = x.begin(); it != x.end(); ++it) { int id = P.id_fast(&*it); if (id < 0 || v.size() > (size_t)P.N) fail("contents", "container %d is corrupt after an exception", ci); v.push_back(id); } };
    if (ci < 3) scan(c(ci)); else scan(alt());
    return v;
  }
  static bool subsequence(const vec<int> &a, const vec<int> &b) { size_t j = 0; for (size_t i = 0; i < b.size() && j < a.size(); ++i) if (b[i] == a[j]) ++j; return j == a.size(); }
  void adopt(int ci, const vec<int> &v) {
    for (int id : m[ci]) if (P.owner[id] == ci) P.owner[id] = FREE;
    m[ci] = v;
    for (int id : v) P.owner[id] = ci;
    if (ci < 3) sgmax[ci] = std::max(sgmax[ci], (int)v.size());
    for (size_t k = 1; k < v.size(); ++k) {
      int a = P.key[v[k - 1]], b = P.key[v[k]];
      if (lt(ci, b, a) || (uniq(ci) && !lt(ci, a, b))) fail("order", "container %d is not ordered after an exception: %s", ci, fmt_ids(v).c_str());
    }
  }

  // ------------------------------------------------------------ operations
  static const u32 THROW_INS = SIM_BIT(F_CMP) | (KIND == K_TREAP ? SIM_BIT(F_PRIO) : 0);
  static const u32 THROW_PRIO = KIND == K_TREAP ? SIM_BIT(F_PRIO) : 0;

  void op_insert(const Step &s, int ci) {
    int id = P.take_free(s.b); if (id < 0) return skip();
    if (s.c) P.rekey(id, (int)(s.c % keyrange), P.prio[id]);
    int lo = lower(ci, P.key[id]), hi = upper(ci, P.key[id]);
    u64 c0 = g.ncalls[F_CMP];
    Arm arm(s, THROW_INS);
    if constexpr (UNIQUE) {
      std::pair<It, bool> r;
      if (attempt([&] { r = c(ci).insert(e(id)); })) { SIM_PROBE("insert threw"); return; }
      bool exp = lo == hi;
      if (r.second != exp) fail("wrong-result", "insert of key %d into a unique container reported %d, expected %d", P.key[id], (int)r.second, (int)exp);
      if (exp) put(ci, lo, id);
      else SIM_PROBE("insert rejected duplicate");
      expect_pos(ci, r.first, lo, "insert");
    } else {
      It r;
      if constexpr (requires { requires C::raw_multi; }) if ((s.d & 3) == 1) {      // the plain trees offer unique insertion besides equal keys
        bool exp = lo == hi, ins = exp; CIt hint = cat(ci, (int)((s.d >> 4) % (m[ci].size() + 1)));
        bool threw = attempt([&] { if (s.d & 4) r = c(ci).insert_unique(hint, e(id)); else { std::pair<It, bool> x = c(ci).insert_unique(e(id)); r = x.first; ins = x.second; } });
        if (threw) { SIM_PROBE("insert threw"); return; }
        SIM_PROBE("insert_unique into a tree with equivalent elements");
        if (ins != exp) fail("wrong-result", "insert_unique of key %d reported %d, expected %d", P.key[id], (int)ins, (int)exp);
        if (exp) { put(ci, lo, id); expect_pos(ci, r, lo, "insert_unique"); }
        else { int p = pos_of(ci, r, "insert_unique"); if (p < lo || p >= hi) fail("wrong-result", "insert_unique did not return an equivalent element"); }
        return;
      }
      if (attempt([&] { r = c(ci).insert(e(id)); })) { SIM_PROBE("insert threw"); return; }
      put(ci, hi, id);
      expect_pos(ci, r, hi, "insert");
    }
    cost(ci, g.ncalls[F_CMP] - c0, 1, "insert");
  }
  void cost(int ci, u64 calls, int mult, const char *what) {
    if (KIND != K_RB && KIND != K_AVL) return;
    double lim = mult * (2 * std::log2((double)m[ci].size() + 2) + 4);
    if ((double)calls > lim) fail("complexity", "%s needed %llu comparisons in a container of %zu elements", what, (unsigned long long)calls, m[ci].size());
  }
  void op_insert_hint(const Step &s, int ci) {
    int id = P.take_free(s.b); if (id < 0) return skip();
    if (s.c & 1) P.rekey(id, (int)((s.c >> 1) % keyrange), P.prio[id]);
    int k = P.key[id], lo = lower(ci, k), hi = upper(ci, k), n = (int)m[ci].size();
    int h = (s.d & 3) == 0 ? lo : (s.d & 3) == 1 ? hi : (int)((s.d >> 2) % (n + 1));
    Arm arm(s, THROW_INS);
    It r;
    if (attempt([&] { r = c(ci).insert(cat(ci, h), e(id)); })) { SIM_PROBE("hinted insert threw"); return; }
    if (UNIQUE) {
      if (lo == hi) put(ci, lo, id);
      expect_pos(ci, r, lo, "insert(hint)");
    } else {
      int pos;
      bool le = h == n || !lt(ci, P.key[m[ci][h]], k);           // new <= *hint
      bool ge = h == 0 || !lt(ci, k, P.key[m[ci][h - 1]]);       // *prev(hint) <= new
      if (le && ge) pos = h; else if (le) pos = hi; else pos = lo;
      // Only the ordering and, for a correct hint, the exact place are promised.
      put(ci, pos, id);
      Quiet q;
      if (&*r != P.ptr(id)) fail("wrong-result", "insert(hint) did not return the new element");
      if (!(le && ge)) {                                         // find out where it went within its equal range
        vec<int> v = contents(ci);
        vec<int> w = v; w.erase(std::remove(w.begin(), w.end(), id), w.end());
        vec<int> o = m[ci]; o.erase(std::remove(o.begin(), o.end(), id), o.end());
        expect_ids(w, o, "contents", "other elements after insert(hint)");
        m[ci] = v;
        SIM_PROBE("insert with a wrong hint");
      } else SIM_PROBE("insert with a right hint");
    }
  }
  void op_insert_range(const Step &s, int ci) {
    vec<E *> v; vec<int> ids;
    int want = 1 + (int)(s.c % 6);
    for (int j = 0; j < want; ++j) {
      int id = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + j * 5 + d) % P.N); if (P.pick(i) && std::find(ids.begin(), ids.end(), i) == ids.end()) { id = i; break; } }
      if (id < 0) break;
      ids.push_back(id); v.push_back(P.ptr(id));
    }
    if (ids.empty()) return skip();
    Arm arm(s, THROW_INS);
    vec<int> before = m[ci];
    bool threw = attempt([&] { c(ci).insert(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size())); });
    if (threw) { range_fault(ci, before, ids); return; }
    for (int id : ids) { int lo = lower(ci, P.key[id]), hi = upper(ci, P.key[id]); if (UNIQUE) { if (lo == hi) put(ci, lo, id); } else put(ci, hi, id); }
  }
  void range_fault(int ci, const vec<int> &before, const vec<int> &ids) {
    SIM_PROBE("range insert threw");
    vec<int> v = contents(ci), added;
    if (!subsequence(before, v)) fail("lost-element", "an exception in a range insert disturbed elements that were already there: %s -> %s", fmt_ids(before).c_str(), fmt_ids(v).c_str());
    for (int id : v) if (std::find(before.begin(), before.end(), id) == before.end()) {
      if (std::find(ids.begin(), ids.end(), id) == ids.end()) fail("contents", "a foreign element appeared");
      if (std::find(added.begin(), added.end(), id) != added.end()) fail("contents", "element %d appears twice", id);
      added.push_back(id);
    }
    if (!added.empty()) SIM_PROBE("range insert threw half way");
    adopt(ci, v);
  }
  void op_check_commit(const Step &s, int ci) {
    if constexpr (UNIQUE) {
      int id = P.take_free(s.b); if (id < 0) return skip();
      if (s.c & 1) P.rekey(id, (int)((s.c >> 1) % keyrange), P.prio[id]);
      int k = P.key[id], lo = lower(ci, k), hi = upper(ci, k), n = (int)m[ci].size();
      typename C::insert_commit_data cd;
      std::pair<It, bool> r;
      int h = (s.d & 4) ? lo : (int)((s.d >> 3) % (n + 1));
      CIt hint = cat(ci, h);
      HKey hkk = hk_same(ci, k);
      MakeKey mk(k);
      Arm arm(s, THROW_INS);
      bool threw;
      if constexpr (KIND == K_TREAP) {
        int p = P.prio[id]; HPrio hp{p};
        mk.a->probe.prio = p;
        const typename C::priority_type &pa = prio_arg(mk);
        switch (s.d & 3) {
        case 0: threw = attempt([&] { r = c(ci).insert_check(mk.get(), pa, cd); }); break;
        case 1: if ((s.d >> 9) & 1) threw = attempt([&] { r = c(ci).insert_check(at(ci, h), mk.get(), pa, cd); }); else threw = attempt([&] { r = c(ci).insert_check(hint, mk.get(), pa, cd); }); break;
        case 2: threw = attempt([&] { r = c(ci).insert_check(hkk, hc(ci), hp, PrioCmp(pmode), cd); }); break;
        default: threw = attempt([&] { r = c(ci).insert_check(hint, hkk, hc(ci), hp, PrioCmp(pmode), cd); });
        }
      } else {
        switch (s.d & 3) {
        case 0: threw = attempt([&] { r = c(ci).insert_check(mk.get(), cd); }); break;
        case 1: if ((s.d >> 9) & 1) threw = attempt([&] { r = c(ci).insert_check(at(ci, h), mk.get(), cd); }); else threw = attempt([&] { r = c(ci).insert_check(hint, mk.get(), cd); }); break;
        case 2: threw = attempt([&] { r = c(ci).insert_check(hkk, hc(ci), cd); }); break;
        default: threw = attempt([&] { r = c(ci).insert_check(hint, hkk, hc(ci), cd); });
        }
      }
      if (threw) { SIM_PROBE("insert_check threw"); return; }
      bool exp = lo == hi;
      if (r.second != exp) fail("wrong-result", "insert_check reported %d, expected %d for key %d", (int)r.second, (int)exp, k);
      if (!exp) { expect_pos(ci, r.first, lo, "insert_check"); SIM_PROBE("insert_check found a duplicate"); return; }
      { Quiet q; check_one(c(ci), ci); }                         // the check itself changes nothing
      if (s.a & 8) { HKey z = hk_same(ci, (int)(s.b % keyrange)); Quiet q; (void)cc(ci).find(z, hc(ci)); (void)cc(ci).count(z, hc(ci)); }
      if (s.a & 16) return;                                      // prepared but never committed
      It w;
      { NoFunctor nf("insert_commit"); w = c(ci).insert_commit(e(id), cd); }
      put(ci, lo, id);
      expect_pos(ci, w, lo, "insert_commit");
      SIM_PROBE("insert_commit");
    } else skip();
  }
  const auto &prio_arg(MakeKey &mk) { if constexpr (std::is_same<typename C::priority_type, int>::value) return mk.a->probe.prio; else return mk.a->probe; }
  // element whose key fits exactly at model position pos (so that order is kept)
  int fit(int ci, int pos, u32 start) {
    int n = (int)m[ci].size();
    int id = P.take_free(start); if (id < 0) return -1;
    auto ok = [&](int k) {
      if (pos > 0) { int a = P.key[m[ci][pos - 1]]; if (lt(ci, k, a) || (UNIQUE && !lt(ci, a, k))) return false; }
      if (pos < n) { int b = P.key[m[ci][pos]]; if (lt(ci, b, k) || (UNIQUE && !lt(ci, k, b))) return false; }
      return true;
    };
    if (ok(P.key[id])) return id;
    for (int d = 0; d < keyrange + 16; ++d) { int k = (int)((start * 3 + d) % (keyrange + 16)) - 8; if (ok(k)) { P.rekey(id, k, P.prio[id]); return id; } }
    return -1;
  }
  void op_positional(const Step &s, int ci, u32 op) {
    int n = (int)m[ci].size();
    int pos = op == T_PUSH_BACK ? n : op == T_PUSH_FRONT ? 0 : (int)(s.c % (n + 1));
    int id = fit(ci, pos, s.b);
    if (id < 0) return skip();
    Arm arm(s, THROW_PRIO);
    It r; bool threw;
    CIt hint = cat(ci, pos);
    if (KIND == K_TREAP) {
      threw = attempt([&] { if (op == T_PUSH_BACK) c(ci).push_back(e(id)); else if (op == T_PUSH_FRONT) c(ci).push_front(e(id)); else r = c(ci).insert_before(hint, e(id)); });
      if (threw) { SIM_PROBE("positional insert threw"); return; }
    } else {
      NoFunctor nf("positional insertion");
      if (op == T_PUSH_BACK) c(ci).push_back(e(id)); else if (op == T_PUSH_FRONT) c(ci).push_front(e(id)); else r = c(ci).insert_before(hint, e(id));
    }
    put(ci, pos, id);
    if (op == T_INSERT_BEFORE) expect_pos(ci, r, pos, "insert_before");
  }
  void op_erase_it(const Step &s, int ci) {
    int n = (int)m[ci].size(); if (!n) return skip();
    int pos = (int)(s.b % n), id = m[ci][pos];
    Dctx d{this, ci, (int)(s.d % 3), {}, {}};
    bool disp = s.c & 1;
    Arm arm(s, THROW_PRIO);
    It it = at(ci, pos), r;
    bool threw = attempt([&] { if (disp) r = c(ci).erase_and_dispose(it, Disposer{&d}); else if (s.c & 2) r = c(ci).erase(CIt(it)); else r = c(ci).erase(it); });
    if (threw) { SIM_PROBE("treap erase threw"); if (!d.got.empty()) fail("dispose", "erase threw after calling the disposer"); return; }
    take(ci, pos);
    if (disp) { if (d.action == 1) P.owner[id] = DEAD; settle(d, {id}, "erase_and_dispose(it)"); }
    if (!(disp && d.action == 2)) expect_pos(ci, r, pos, "erase(it)");
    else { Quiet q; expect_pos(ci, r, pos, "erase(it)"); }
  }
  // remove model range [i,j) and settle a disposer
  vec<int> cut(int ci, int i, int j, Dctx *d) {
    vec<int> ids(m[ci].begin() + i, m[ci].begin() + j);
    m[ci].erase(m[ci].begin() + i, m[ci].begin() + j);
    for (int id : ids) { drop_held(id); P.owner[id] = d && d->action == 1 ? DEAD : FREE; }
    return ids;
  }
  void partial_erase(int ci, int i, int j, Dctx *d) {            // treap: the priority functor threw inside a range erase
    SIM_PROBE("range erase threw");
    vec<int> v = contents(ci), gone, tail(m[ci].begin() + i, m[ci].begin() + j);
    if (!subsequence(v, m[ci])) fail("contents", "an exception in a range erase reordered the container");
    for (int id : m[ci]) if (std::find(v.begin(), v.end(), id) == v.end()) {
      if (std::find(tail.begin(), tail.end(), id) == tail.end()) fail("lost-element", "an exception in a range erase removed element %d outside the range", id);
      gone.push_back(id);
    }
    for (int id : gone) { drop_held(id); P.owner[id] = d && d->action == 1 ? DEAD : FREE; }
    m[ci] = v;
    if (d) settle(*d, gone, "disposed before the exception");
  }
  void op_erase_range(const Step &s, int ci) {
    int n = (int)m[ci].size();
    int i = (int)(s.b % (n + 1)), j = (int)(s.c % (n + 1)); if (i > j) std::swap(i, j);
    bool disp = s.d & 1;
    Dctx d{this, ci, (int)((s.d >> 1) % 3), {}, {}};
    Arm arm(s, THROW_PRIO);
    CIt b = cat(ci, i), en = cat(ci, j); It r;
    bool threw = attempt([&] { if (disp) r = c(ci).erase_and_dispose(b, en, Disposer{&d}); else r = c(ci).erase(b, en); });
    if (threw) { partial_erase(ci, i, j, disp ? &d : nullptr); return; }
    vec<int> ids = cut(ci, i, j, disp ? &d : nullptr);
    if (disp) settle(d, ids, "erase_and_dispose(range)");
    expect_pos(ci, r, i, "erase(range)");
  }
  void op_erase_key(const Step &s, int ci) {
    int k = (int)(s.b % keyrange);
    bool disp = s.d & 1, het = s.d & 2;
    HKey h = hk(ci, s.c, k);
    int i = het ? hlower(ci, h) : lower(ci, k), j = het ? hupper(ci, h) : upper(ci, k);
    Dctx d{this, ci, (int)((s.d >> 2) % 3), {}, {}};
    MakeKey mk(k);
    // erase(key) without a functor argument is documented not to throw (except in the treap)
    Arm arm(s, (het || disp || KIND == K_TREAP) ? THROW_INS : 0);
    size_t r = 0; bool threw;
    size_t n0 = m[ci].size();
    if (disp) threw = attempt([&] { r = het ? c(ci).erase_and_dispose(h, hc(ci), Disposer{&d}) : c(ci).erase_and_dispose(mk.get(), Disposer{&d}); });
    else threw = attempt([&] { r = het ? c(ci).erase(h, hc(ci)) : c(ci).erase(mk.get()); });
    if (threw) { partial_erase(ci, i, j, disp ? &d : nullptr); if (KIND != K_TREAP && m[ci].size() != n0) fail("lost-element", "erase(key) threw and removed elements"); return; }
    if (r != (size_t)(j - i)) fail("wrong-result", "erase(key) returned %zu, expected %d", r, j - i);
    vec<int> ids = cut(ci, i, j, disp ? &d : nullptr);
    if (disp) settle(d, ids, "erase_and_dispose(key)");
  }
  void op_clear(const Step &s, int ci) {
    bool disp = s.d & 1;
    Dctx d{this, ci, (int)((s.d >> 1) % 3), {}, {}};
    if (disp) c(ci).clear_and_dispose(Disposer{&d}); else c(ci).clear();
    vec<int> ids = cut(ci, 0, (int)m[ci].size(), disp ? &d : nullptr);
    if (disp) settle(d, ids, "clear_and_dispose");
    sgmax[ci] = 0; if (ci < 3) abound[ci] = 0;
  }
  // one lookup; nonconst lookups may restructure a splay tree
  template <class X, class K, class Cm> void lookup_all(X &x, int ci, const K &k, Cm cm, int lo, int hi, u32 what, bool same) {
    int n = (int)m[ci].size(); (void)n;
    switch (what % 5) {
    case 0: if (same) { auto it = x.find(k, cm); int p = pos_of(ci, it, "find"); if (lo == hi ? p != n : (p < lo || p >= hi)) fail("wrong-result", "find returned position %d, the matching range is [%d,%d)", p, lo, hi); } break;
    case 1: expect_pos(ci, x.lower_bound(k, cm), lo, "lower_bound"); break;
    case 2: expect_pos(ci, x.upper_bound(k, cm), hi, "upper_bound"); break;
    case 3: { auto p = x.equal_range(k, cm); expect_pos(ci, p.first, lo, "equal_range.first"); expect_pos(ci, p.second, hi, "equal_range.second"); break; }
    case 4: if (same) { size_t r = x.count(k, cm); if (r != (size_t)(hi - lo)) fail("wrong-result", "count returned %zu, expected %d", r, hi - lo); } break;
    }
  }
  template <class X> void lookup_key(X &x, int ci, const KT &k, int lo, int hi, u32 what) {
    int n = (int)m[ci].size();
    switch (what % 5) {
    case 0: { auto it = x.find(k); int p = pos_of(ci, it, "find"); if (lo == hi ? p != n : (p < lo || p >= hi)) fail("wrong-result", "find returned position %d, the matching range is [%d,%d)", p, lo, hi); break; }
    case 1: expect_pos(ci, x.lower_bound(k), lo, "lower_bound"); break;
    case 2: expect_pos(ci, x.upper_bound(k), hi, "upper_bound"); break;
    case 3: { auto p = x.equal_range(k); expect_pos(ci, p.first, lo, "equal_range.first"); expect_pos(ci, p.second, hi, "equal_range.second"); break; }
    case 4: { size_t r = x.count(k); if (r != (size_t)(hi - lo)) fail("wrong-result", "count returned %zu, expected %d", r, hi - lo); break; }
    }
  }
  void lookup_sel(int ci, u32 b, u32 what, u32 sel) {
    int k = (int)(b % (keyrange + 2)) - 1;
    if (sel & 1) {
      HKey h = hk(ci, sel >> 2, k < 0 ? 0 : k);
      int lo = hlower(ci, h), hi = hupper(ci, h);
      bool same = h.grain == hk_same(ci, 0).grain;
      if (sel & 2) lookup_all(c(ci), ci, h, hc(ci), lo, hi, what, same); else lookup_all(cc(ci), ci, h, hc(ci), lo, hi, what, same);
    } else {
      MakeKey mk(k);
      int lo = lower(ci, k), hi = upper(ci, k);
      if (sel & 2) lookup_key(c(ci), ci, mk.get(), lo, hi, what); else lookup_key(cc(ci), ci, mk.get(), lo, hi, what);
    }
  }
  void op_lookup(const Step &s, int ci) {
    u64 c0 = g.ncalls[F_CMP];
    Arm arm(s, SIM_BIT(F_CMP));
    if (attempt([&] { lookup_sel(ci, s.b, s.c, s.d); })) { SIM_PROBE("lookup threw"); return; }
    if (s.c % 5 != 4) cost(ci, g.ncalls[F_CMP] - c0, 3, "a lookup");
  }
  template <class X> void bounded(X &x, int ci, const Step &s) {
    int k1 = (int)(s.b % keyrange), k2 = (int)(s.c % keyrange);
    if (lt(ci, k2, k1)) std::swap(k1, k2);
    bool lc = s.d & 1, rc = s.d & 2;
    if (!lc && !rc && !lt(ci, k1, k2)) rc = true;                // documented precondition
    MakeKey a(k1), b(k2);
    auto want = [&](int w1, int w2) { return std::make_pair(w1, std::max(w1, w2)); };
    if (s.d & 4) {
      HKey h1 = hk_same(ci, k1), h2 = hk_same(ci, k2);
      int lo = lc ? hlower(ci, h1) : hupper(ci, h1), hi = rc ? hupper(ci, h2) : hlower(ci, h2);
      auto r = x.bounded_range(h1, h2, hc(ci), lc, rc); auto w = want(lo, hi);
      expect_pos(ci, r.first, w.first, "bounded_range.first"); expect_pos(ci, r.second, w.second, "bounded_range.second");
    } else {
      int lo = lc ? lower(ci, k1) : upper(ci, k1), hi = rc ? upper(ci, k2) : lower(ci, k2);
      auto r = x.bounded_range(a.get(), b.get(), lc, rc); auto w = want(lo, hi);
      expect_pos(ci, r.first, w.first, "bounded_range.first"); expect_pos(ci, r.second, w.second, "bounded_range.second");
    }
  }
  void op_bounded(const Step &s, int ci) {
    Arm arm(s, SIM_BIT(F_CMP));
    if (attempt([&] { if (s.d & 8) bounded(c(ci), ci, s); else bounded(cc(ci), ci, s); })) SIM_PROBE("bounded_range threw");
  }
  void swap_models(int a, int b) {
    std::swap(m[a], m[b]); std::swap(tt[a], tt[b]); std::swap(mode[a], mode[b]); std::swap(alpha[a], alpha[b]); std::swap(abound[a], abound[b]); std::swap(sgmax[a], sgmax[b]); sgloose[a] = sgloose[b] = true;
    for (int id : m[a]) P.owner[id] = a;
    for (int id : m[b]) P.owner[id] = b;
  }
  void op_swap(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    if (s.c & 1) { using std::swap; swap(c(a), c(b)); } else c(a).swap(c(b));
    swap_models(a, b);
  }
  void op_move_assign(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    // The moved-from container's contents are unspecified: adopt it, but nothing may be lost.
    vec<int> oa = m[a], ob = m[b]; int mb = mode[b];
    c(a) = boost::move(c(b)); std::swap(tt[a], tt[b]);
    for (int id : oa) { P.owner[id] = FREE; } for (int id : ob) P.owner[id] = FREE;
    m[a].clear(); m[b].clear();
    mode[a] = mb; { float ba = std::max(alpha[a], abound[a]); abound[a] = abound[b]; abound[b] = ba; } alpha[a] = alpha[b]; int sm = std::max(sgmax[a], sgmax[b]); sgmax[a] = sgmax[b] = sm; sgloose[a] = sgloose[b] = true;
    { Quiet q; mode[b] = cc(b).key_comp().mode; }
    vec<int> na = contents(a), nb = contents(b);
    expect_ids(na, ob, "move", "contents after move assignment");
    for (int id : nb) if (std::find(oa.begin(), oa.end(), id) == oa.end()) fail("move", "moved-from container holds a foreign element");
    adopt(a, na); adopt(b, nb);
    for (int id : oa) if (P.owner[id] == FREE) drop_held(id);
    SIM_PROBE("move assignment");
  }
  void op_move_ctor(const Step &s, int a) {
    // move-construct a temporary out of a, move it back: everything must survive
    size_t off = coff[a];
    alignas(C) static char buf[sizeof(C)];
    size_t tmp = RELOC ? 0 : 0; (void)tmp;
    (void)s;
    C *t = new (tmp_mem()) C(boost::move(c(a)));
    (void)buf;
    { Quiet q; if (!c(a).empty()) fail("move", "moved-from container is not empty"); }
    c(a).~C();
    new (arena_at(off)) C(boost::move(*t));
    { Quiet q; if (!t->empty()) fail("move", "moved-from container is not empty"); }
    t->~C();
    SIM_PROBE("move construction");
  }
  size_t tmpoff = 0;
  void *tmp_mem() { if (!tmpoff) tmpoff = arena_alloc(sizeof(C) + sizeof(A), 16); return arena_at(tmpoff); }
  int count_free() { int n = 0; for (int i = 0; i < P.N; ++i) if (P.owner[i] == FREE) ++n; return n; }
  void op_clone(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    Dctx d{this, a, (int)(s.c & 1), {}, {}};
    // clones come from free elements: revive dead ones first, make room
    for (int i = 0; i < P.N; ++i) if (P.owner[i] == DEAD) P.create(i, P.key[i], P.prio[i]);
    if (count_free() < (int)m[b].size()) return skip();
    std::fill(P.tmpmark.begin(), P.tmpmark.end(), 0);
    vec<int> olda = m[a], oldb = m[b];
    int olda_mode = mode[a];
    Cctx x{this, {}, {}};
    Arm arm(s, SIM_BIT(F_CLONE) | SIM_BIT(F_FCOPY));
    bool threw;
    if (s.d & 1) threw = attempt([&] { c(a).clone_from(boost::move(c(b)), NCloner{&x}, Disposer{&d}); });
    else threw = attempt([&] { c(a).clone_from(cc(b), Cloner{&x}, Disposer{&d}); });
    std::fill(P.tmpmark.begin(), P.tmpmark.end(), 0);
    vec<int> want = olda;
    if (threw) { SIM_PROBE("clone_from threw"); if (x.dst.size() > 1) SIM_PROBE("clone_from threw after some clones"); want.insert(want.end(), x.dst.begin(), x.dst.end()); }
    expect_ids(sorted(d.got), sorted(want), "clone", threw ? "elements disposed by a clone_from that failed" : "elements disposed by clone_from");
    cut(a, 0, (int)m[a].size(), nullptr);
    for (int id : d.got) { P.owner[id] = d.action == 1 ? DEAD : FREE; drop_held(id); }
    if (!threw) {
      if (sorted(x.src) != sorted(oldb)) fail("clone", "clone_from did not clone every source element exactly once");
      vec<int> na;
      for (int id : oldb) for (size_t j = 0; j < x.src.size(); ++j) if (x.src[j] == id) na.push_back(x.dst[j]);
      for (int id : na) P.owner[id] = a;
      m[a] = na;
      mode[a] = mode[b];
      alpha[a] = alpha[b]; abound[a] = abound[b]; sgmax[a] = std::max(sgmax[b], (int)na.size()); sgloose[a] = true;
      // shape of a clone equals the shape of the original
    } else { Quiet q; mode[a] = cc(a).key_comp().mode; if (mode[a] != olda_mode && mode[a] != mode[b]) fail("comparator", "comparison object invented by a failed clone_from"); sgmax[a] = 0; if (KIND == K_SG) { alpha[a] = alpha_now(a); } }
  }
  float alpha_now(int ci) { if constexpr (KIND == K_SG) return c(ci).balance_factor(); else return (void)ci, 0.7f; }
  void op_merge(const Step &s, int a) {
    int b = (s.b % 3 == 0) ? 3 : (a + 1 + (int)(s.b & 1)) % 3; if (!same_traits(a, b)) return skip();
    vec<int> oa = m[a], ob = m[b];
    Arm arm(s, THROW_INS);
    bool threw = b == 3 ? attempt([&] { c(a).merge(alt()); }) : attempt([&] { c(a).merge(c(b)); });
    if (threw) {
      SIM_PROBE("merge threw");
      vec<int> na = contents(a), nb = contents(b), all = na, old = oa;
      all.insert(all.end(), nb.begin(), nb.end()); old.insert(old.end(), ob.begin(), ob.end());
      if (sorted(all) != sorted(old)) fail("lost-element", "merge threw and elements were lost or duplicated: %s + %s -> %s + %s", fmt_ids(oa).c_str(), fmt_ids(ob).c_str(), fmt_ids(na).c_str(), fmt_ids(nb).c_str());
      if (!subsequence(oa, na)) fail("lost-element", "merge threw and disturbed the destination");
      if (!subsequence(nb, ob)) fail("lost-element", "merge threw and reordered the source");
      if (nb.size() < ob.size()) SIM_PROBE("merge threw half way");
      m[a].clear(); m[b].clear();
      adopt(a, na); adopt(b, nb);
      if (b == 3) fix_held();
      return;
    }
    vec<int> left;
    for (int id : ob) {
      int lo = lower(a, P.key[id]), hi = upper(a, P.key[id]);
      if (UNIQUE && lo != hi) { left.push_back(id); continue; }
      put(a, hi, id);
    }
    m[b] = left;
    if (b == 3) fix_held();
  }
  void fix_held() { for (int k = 0; k < NHELD; ++k) if (hact[k] && (P.owner[hid[k]] < 0 || P.owner[hid[k]] > 2)) hact[k] = false; }
  void op_replace(const Step &s, int ci) {
    int n = (int)m[ci].size(); if (!n) return skip();
    int pos = (int)(s.b % n), old = m[ci][pos];
    int id = P.take_free(s.c); if (id < 0) return skip();
    P.rekey(id, P.key[old], P.prio[old]);
    // a key that still fits between the neighbours is allowed too
    if (s.d & 1) { int k = P.key[old] + (int)((s.d >> 1) % 3) - 1; bool ok = true;
      if (pos) { int a = P.key[m[ci][pos - 1]]; if (lt(ci, k, a) || (UNIQUE && !lt(ci, a, k))) ok = false; }
      if (pos + 1 < n) { int b = P.key[m[ci][pos + 1]]; if (lt(ci, b, k) || (UNIQUE && !lt(ci, k, b))) ok = false; }
      if (ok) P.rekey(id, k, P.prio[old]); }
    { NoFunctor nf("replace_node"); c(ci).replace_node(at(ci, pos), e(id)); }
    take(ci, pos); put(ci, pos, id);
  }
  void op_remove_node(const Step &s, int ci) {
    if constexpr (!CT && !STATEFUL && KIND != K_TREAP && KIND != K_SG) {
      int n = (int)m[ci].size(); if (!n) return skip();
      int pos = (int)(s.b % n), id = m[ci][pos];
      { NoFunctor nf("remove_node"); c(ci).remove_node(e(id)); }
      take(ci, pos);
    } else skip();
  }
  void op_unlink_leftmost(const Step &s, int ci) {
    int n = (int)m[ci].size();
    int k = (s.b & 1) ? n : (int)(s.c % (n + 1));
    if (s.b & 2) { Quiet q; if constexpr (KIND == K_TREAP || KIND == K_BS || KIND == K_SPLAY) {} }
    for (int i = 0; i < k; ++i) {
      auto p = c(ci).unlink_leftmost_without_rebalance();
      if (to_raw(p) != P.ptr(m[ci][0])) fail("wrong-result", "unlink_leftmost_without_rebalance returned the wrong element (step %d of %d)", i + 1, k);
      take(ci, 0);
      Quiet q;
      if (n < 1000 || i % 256 == 0 || i + 1 == k) expect_ids(contents(ci), m[ci], "contents", "elements left after unlink_leftmost_without_rebalance");
      if (c(ci).size() != m[ci].size()) fail("size", "size() wrong after unlink_leftmost_without_rebalance");
    }
    if (k == n) { Quiet q; auto p = c(ci).unlink_leftmost_without_rebalance(); if (to_raw(p)) fail("wrong-result", "unlink_leftmost on an empty container returned an element"); }
    if (KIND == K_RB || KIND == K_AVL) {                          // the balance may be gone: only teardown is allowed now
      c(ci).clear();
      cut(ci, 0, (int)m[ci].size(), nullptr);
    }
    sgmax[ci] = std::max(sgmax[ci], (int)m[ci].size());
  }
  void op_rebalance(const Step &s, int ci) {
    if constexpr (KIND == K_SG || KIND == K_SPLAY || KIND == K_BS) {
      (void)s;
      NoFunctor nf("rebalance");
      c(ci).rebalance();
      int n = (int)m[ci].size(), h = height_of(ci);
      if (n && h > (int)std::floor(std::log2((double)n)) + 1) fail("shape", "rebalance() left height %d for %d elements", h, n);
      SIM_PROBE("rebalance");
    } else skip();
  }
  void op_rebalance_sub(const Step &s, int ci) {
    if constexpr (KIND == K_SG || KIND == K_SPLAY || KIND == K_BS) {
      int n = (int)m[ci].size(); if (!n) return skip();
      int pos = (int)(s.b % n);
      vec<int> sub = subtree_ids(ci, m[ci][pos]);
      It r;
      { NoFunctor nf("rebalance_subtree"); r = c(ci).rebalance_subtree(at(ci, pos)); }
      int p = pos_of(ci, r, "rebalance_subtree");
      if (p >= n || std::find(sub.begin(), sub.end(), m[ci][p]) == sub.end()) fail("wrong-result", "rebalance_subtree did not return an element of the subtree");
      if (sorted(subtree_ids(ci, m[ci][p])) != sorted(sub)) fail("wrong-result", "rebalance_subtree returned something that is not the subtree's new root");
    } else skip();
  }
  vec<int> subtree_ids(int ci, int id) {
    Quiet q; vec<int> v;
    NP np = at(ci, index(ci, id)).pointed_node();
    collect(np, v, 0);
    return v;
  }
  void collect(NP p, vec<int> &v, int depth) {
    if (!p || depth > P.N + 2) return;
    collect(NP(NT::get_left(p)), v, depth + 1);
    v.push_back(((E *)to_raw(value_ptr(p)))->id);
    collect(NP(NT::get_right(p)), v, depth + 1);
  }
  void op_splay(const Step &s, int ci) {
    if constexpr (KIND == K_SPLAY) {
      int n = (int)m[ci].size(); if (!n) return skip();
      int pos = (int)(s.b % n);
      if (s.c & 1) {
        { NoFunctor nf("splay_up"); c(ci).splay_up(at(ci, pos)); }
        Quiet q; expect_pos(ci, c(ci).root(), pos, "root() after splay_up");
      } else {
        int k = (int)(s.d % keyrange);
        if constexpr (!KOV) {
          MakeKey mk(k);
          Arm arm(s, SIM_BIT(F_CMP));
          It r;
          if (attempt([&] { r = c(ci).splay_down(mk.get()); })) { SIM_PROBE("splay_down threw"); return; }
          int p = pos_of(ci, r, "splay_down");
          Quiet q;
          if (lower(ci, k) != upper(ci, k) && (p < lower(ci, k) || p >= upper(ci, k))) fail("wrong-result", "splay_down did not bring the matching element to the root");
          expect_pos(ci, c(ci).root(), p, "root() after splay_down");
        }
      }
    } else skip();
  }
  void op_balance_factor(const Step &s, int ci) {
    if constexpr (KIND == K_SG) {
      if constexpr (C::floating_point) {
        static const float f[] = {0.55f, 0.6f, 0.70711f, 0.8f, 0.95f};
        float nf = f[s.b % 5];
        c(ci).balance_factor(nf); alpha[ci] = nf;
        if (std::fabs(c(ci).balance_factor() - nf) > 1e-6) fail("wrong-result", "balance_factor was not stored");
      }
    } else skip();
  }
  void op_recreate(const Step &s, int ci) {
    int nm = (int)(s.b % 3);
    c(ci).~C();
    for (int id : m[ci]) { P.owner[id] = FREE; drop_held(id); }
    m[ci].clear();
    Quiet q_; if constexpr (SAFE) for (int i = 0; i < P.N; ++i) if (P.owner[i] == FREE && hook_linked(i)) fail("is_linked", "element %d is still linked after its container was destroyed", i);
    memset(arena_at(coff[ci]), FILL_FRESH, sizeof(C));
    mode[ci] = nm; construct(&c(ci), ci, nm); alpha[ci] = 0.70711f; sgmax[ci] = 0; abound[ci] = 0;
  }
  void op_ctor_range(const Step &s, int ci) {
    c(ci).~C();
    for (int id : m[ci]) { P.owner[id] = FREE; drop_held(id); }
    m[ci].clear(); sgmax[ci] = 0; alpha[ci] = 0.70711f; abound[ci] = 0;
    int nm = (int)(s.d % 3); mode[ci] = nm;
    vec<E *> v; vec<int> ids;
    for (int d = 0; d < P.N && (int)ids.size() < (int)(s.c % 12); ++d) { int i = (int)((s.b + d) % P.N); if (P.pick(i)) { ids.push_back(i); v.push_back(P.ptr(i)); } }
    Arm arm(s, SAFE ? THROW_INS : 0);
    bool threw = attempt([&] {
      if constexpr (STATEFUL) { if constexpr (KIND == K_TREAP) new (arena_at(coff[ci])) C(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()), typename C::key_compare(nm), PrioCmp(pmode), VT(table(ci))); else new (arena_at(coff[ci])) C(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()), typename C::key_compare(nm), VT(table(ci))); }
      else if constexpr (KIND == K_TREAP) new (arena_at(coff[ci])) C(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()), typename C::key_compare(nm), PrioCmp(pmode));
      else new (arena_at(coff[ci])) C(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()), typename C::key_compare(nm));
    });
    if (threw) {                                                  // no container came into being: every element must be free again
      SIM_PROBE("range constructor threw");
      memset(arena_at(coff[ci]), FILL_FRESH, sizeof(C));
      construct(&c(ci), ci, nm);
      return;
    }
    for (int id : ids) { int lo = lower(ci, P.key[id]), hi = upper(ci, P.key[id]); if (UNIQUE) { if (lo == hi) put(ci, lo, id); } else put(ci, hi, id); }
  }
  void op_hold(const Step &s, int ci) {
    int n = (int)m[ci].size(); if (!n || taboff[1]) return skip();   // an iterator refers to the traits of its container, which swap exchanges
    int k = (int)(s.b % NHELD), pos = (int)(s.c % n);
    Held &H = held(k);
    H.it = at(ci, pos); H.cit = H.it; hact[k] = true; hid[k] = m[ci][pos];
  }
  void op_destroy_elem(const Step &s) {
    int id = (int)(s.b % P.N);
    if (P.owner[id] == DEAD) return skip();
    if (AUTO && P.owner[id] >= 0) {
      int ci = P.owner[id];
      NoFunctor nf("auto-unlink destructor");
      P.ptr(id)->~E();
      take(ci, index(ci, id));
      P.poison(id);
      SIM_PROBE("destroyed a linked auto-unlink element");
    } else if (P.owner[id] == FREE) P.kill(id);
    else skip();
  }
  void op_hook_unlink(const Step &s) {
    if constexpr (AUTO && !ANY && HOOK) {
      int id = (int)(s.b % P.N);
      if (P.owner[id] == DEAD) return skip();
      P.pick(id); int ci = P.owner[id];
      { NoFunctor nf("hook unlink()"); E::hook(e(id)).unlink(); }
      if (ci >= 0) { take(ci, index(ci, id)); SIM_PROBE("hook unlink() of a linked element"); }
    } else skip();
  }
  void op_misuse(const Step &s, int ci) {
    if constexpr (SAFE) {
      int id = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0) { id = i; break; } }
      if (id < 0) return skip();
      int oc = P.owner[id]; if (!same_traits(oc, ci)) return skip();
      bool asserted;
      switch (s.c % 4) {
      case 0:
        if (UNIQUE && !valid_unique_pos(ci, P.key[id])) return skip();
        asserted = expects_assert([&] { c(ci).insert(e(id)); });
        if (!asserted) fail("no-assert", "inserting an element that is already linked was not reported");
        break;
      case 1:
        if (!m[ci].empty() && !lt(ci, P.key[m[ci].back()], P.key[id])) return skip();
        asserted = expects_assert([&] { c(ci).push_back(e(id)); });
        if (!asserted) fail("no-assert", "push_back of an element that is already linked was not reported");
        break;
      case 2:
        if (LM != boost::intrusive::safe_link) return skip();
        if constexpr (!HOOK) return skip();
        else asserted = expects_assert([&] { typedef typename E::hook_t H; E::hook(e(id)).~H(); });
        if (!asserted) fail("no-assert", "destroying a linked element was not reported");
        break;
      default:
        if (UNIQUE && !valid_unique_pos(ci, P.key[id])) return skip();
        asserted = expects_assert([&] { c(ci).insert(cat(ci, lower(ci, P.key[id])), e(id)); });
        if (!asserted) fail("no-assert", "hinted insertion of a linked element was not reported");
      }
      g.quiet = false;
      SIM_PROBE("misuse reported");
    } else skip();
  }
  void op_relocate() { if constexpr (RELOC) { arena_relocate(); SIM_PROBE("relocated"); } else skip(); }

  // ------------------------------------------------------------ concurrency
  struct RCtx { TreeEngine *w; u64 seed; int nops; };
  static void reader_body(void *v, int f) {
    RCtx &r = *(RCtx *)v; TreeEngine &w = *r.w;
    Rng rng(mix(r.seed, f));
    for (int i = 0; i < r.nops; ++i) {
      int ci = (int)rng.below(3); const C &x = w.cc(ci); u32 k = rng.below(10);
      u32 b = (u32)rng.next(), what = rng.below(5);
      switch (k) {
      case 0: case 1: case 2: w.lookup_sel(ci, b, what, (rng.below(4) << 2) | 1); break;
      case 3: w.lookup_sel(ci, b, what, 0); break;
      case 4: { size_t n = 0; for (CIt it = x.cbegin(); it != x.cend(); ++it, ++n) { if (n >= w.m[ci].size() || &*it != w.P.ptr(w.m[ci][n])) fail("reader", "a concurrent reader saw a wrong element at position %zu", n); } if (n != w.m[ci].size()) fail("reader", "a concurrent reader saw %zu of %zu elements", n, w.m[ci].size()); break; }
      case 5: { size_t n = w.m[ci].size(); for (auto it = x.crbegin(); it != x.crend(); ++it) { if (!n || &*it != w.P.ptr(w.m[ci][n - 1])) fail("reader", "a concurrent reverse reader saw a wrong element"); --n; } if (n) fail("reader", "a concurrent reverse reader missed elements"); break; }
      case 6: if (x.size() != w.m[ci].size() || x.empty() != w.m[ci].empty()) fail("reader", "concurrent size() is wrong"); if constexpr (SAFE) { int id = (int)(b % w.P.N); w.P.pick(id); if (w.P.owner[id] != DEAD) { const E &ce = w.e(id); (void)ce; if (w.hook_linked(id) != (w.P.owner[id] >= 0)) fail("reader", "concurrent is_linked() is wrong"); } } break;
      case 7: { Step s; s.b = b; s.c = (u32)rng.next(); s.d = (u32)rng.below(8); w.bounded(x, ci, s); int o = (ci + 1) % 3; bool eq = x == w.cc(o); if (eq != w.model_eq(ci, o)) fail("reader", "concurrent operator== is wrong"); break; }
      case 8: {
        size_t n = w.m[ci].size();
        if (x.begin() != x.cbegin() || x.end() != x.cend() || x.root() != x.croot() || x.rbegin() != x.crbegin() || x.rend() != x.crend()) fail("reader", "concurrent begin()/end()/root() overloads disagree");
        if (x.key_comp().mode != w.mode[ci] || x.value_comp().key_comp().mode != w.mode[ci]) fail("reader", "concurrent key_comp() is wrong");
        if constexpr (KIND == K_TREAP) { if (x.priority_comp().mode != w.pmode || x.top() != x.ctop() || (n && x.top() != x.root())) fail("reader", "concurrent top()/priority_comp() is wrong"); }
        if constexpr (KIND == K_SG) { float bf = x.balance_factor(); if (std::fabs(bf - w.alpha[ci]) > 1e-4) fail("reader", "concurrent balance_factor() is wrong"); }
        if constexpr (C::has_container_from_iterator) if (&C::container_from_end_iterator(x.cend()) != &x) fail("reader", "concurrent container_from_end_iterator() is wrong");
        x.check();
        if (!n) break;
        int p = (int)(b % n); const E &ce = w.e(w.m[ci][p]);
        CIt it = x.iterator_to(ce); if (&*it != &ce) fail("reader", "concurrent iterator_to() is wrong");
        if constexpr (!STATEFUL) { CIt sit = C::s_iterator_to(ce); if (sit != it) fail("reader", "concurrent s_iterator_to() is wrong"); }
        if constexpr (C::has_container_from_iterator) if (&C::container_from_iterator(it) != &x) fail("reader", "concurrent container_from_iterator() is wrong");
        CIt jt = it; ++jt; w.expect_pos(ci, jt, p + 1, "concurrent ++"); --jt; if (jt != it) fail("reader", "concurrent ++/-- does not come back");
        if (p) { --jt; w.expect_pos(ci, jt, p - 1, "concurrent --"); }
        break;
      }
      case 9: { int o = (ci + 1) % 3; const C &y = w.cc(o); bool lt = x < y, gt = y < x; if ((x > y) != gt || (x <= y) == gt || (x >= y) == lt || (x != y) == w.model_eq(ci, o) || (lt && gt)) fail("reader", "concurrent comparisons disagree"); break; }
      }
    }
  }
  void op_readers(const Step &s) {
    int nf = 2 + (int)(s.a % 3);
    RCtx r{this, mix(tr->seed, si), 2 + (int)(s.b % 5)};
    arena_protect(true);
    Fibers::run(nf, reader_body, &r, tr->sched, schedpos);
    arena_protect(false);
    SIM_PROBE("reader batch");
  }
  static void writer_body(void *v, int f) {
    RCtx &r = *(RCtx *)v; TreeEngine &w = *r.w;
    Rng rng(mix(r.seed, 100 + f));
    int ci = f;
    for (int i = 0; i < r.nops; ++i) {
      u32 k = rng.below(6);
      C &x = w.c(ci);
      if (k < 3) {
        int id = -1;
        for (int d = 0, st = (int)rng.below(w.P.N); d < w.P.N; ++d) { int j = (st + d) % w.P.N; if (j % 3 == f && w.P.pick(j)) { id = j; break; } }
        if (id < 0) continue;
        int lo = w.lower(ci, w.P.key[id]), hi = w.upper(ci, w.P.key[id]);
        if constexpr (UNIQUE) { auto p = x.insert(w.e(id)); if (p.second != (lo == hi)) fail("parallel", "insert result wrong while other containers are being used"); if (p.second) w.put(ci, lo, id); }
        else { x.insert(w.e(id)); w.put(ci, hi, id); }
      } else if (k == 3 && !w.m[ci].empty()) {
        int pos = (int)rng.below((u32)w.m[ci].size());
        It it = x.iterator_to(w.e(w.m[ci][pos]));
        x.erase(it); w.take(ci, pos);
      } else if (k == 4) w.lookup_sel(ci, (u32)rng.next(), rng.below(5), 2 | (rng.below(2)));
      else { auto it = x.begin(); for (size_t q = 0; q < w.m[ci].size(); ++q, ++it) if (&*it != w.P.ptr(w.m[ci][q])) fail("parallel", "iteration wrong while other containers are being used"); }
    }
  }
  void op_parallel(const Step &s) {
    RCtx r{this, mix(tr->seed, si), 3 + (int)(s.b % 6)};
    Fibers::run(3, writer_body, &r, tr->sched, schedpos);
    SIM_PROBE("parallel containers batch");
  }
  void op_rekey(const Step &s) {
    int id = P.take_free(s.b); if (id < 0) return skip();
    P.rekey(id, (int)(s.c % keyrange), (int)(s.d % (tr->param(4, 16) + 1)));
  }
  void op_swap_nodes(const Step &s) {
    if constexpr (!ANY && HOOK) {
      int a = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0) { a = i; break; } }
      if (a < 0) return skip();
      int b = -1;
      if ((s.d & 1) || !SAFE) {
        for (int d = 1; d < P.N; ++d) { int i = (int)((s.c + d) % P.N); if (i != a && P.owner[i] >= 0 && P.key[i] == P.key[a] && (KIND != K_TREAP || P.prio[i] == P.prio[a])) { b = i; break; } }
      }
      if (b < 0 && SAFE) { b = P.take_free(s.c); if (b >= 0) P.rekey(b, P.key[a], P.prio[a]); }
      if (b < 0) return skip();
      int ca = P.owner[a], cb = P.owner[b];
      { NoFunctor nf("swap_nodes"); if (s.d & 2) E::hook(e(a)).swap_nodes(E::hook(e(b))); else E::hook(e(b)).swap_nodes(E::hook(e(a))); }
      int pa = index(ca, a), pb = cb >= 0 ? index(cb, b) : -1;
      m[ca][pa] = b; P.owner[b] = ca;
      if (cb >= 0) { m[cb][pb] = a; P.owner[a] = cb; SIM_PROBE("swap_nodes of two linked nodes"); } else P.owner[a] = FREE;
      drop_held(a); drop_held(b);
    } else skip();
  }
  void op_hook_copy(const Step &s) {
    int a = (int)(s.b % P.N), b = (int)(s.c % P.N);
    if (P.owner[a] == DEAD || P.owner[b] == DEAD || a == b) return skip();
    if constexpr (!HOOK) skip();
    else {
      typedef typename E::hook_t H;
      if (s.d & 1) E::hook(e(a)) = E::hook(e(b));                   // assignment keeps both links
      else { H h(E::hook(e(b))); if constexpr (SAFE) if (h.is_linked()) fail("hook-copy", "a copied hook is linked"); }
    }
  }
  bool model_eq(int a, int b) { if (m[a].size() != m[b].size()) return false; for (size_t i = 0; i < m[a].size(); ++i) if (P.key[m[a][i]] != P.key[m[b][i]]) return false; return true; }
  bool model_lt(int a, int b) { return std::lexicographical_compare(m[a].begin(), m[a].end(), m[b].begin(), m[b].end(), [&](int x, int y) { return P.key[x] < P.key[y]; }); }
  void op_compare(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    const C &x = c(a), &y = c(b);
    if ((x == y) != model_eq(a, b) || (x != y) == model_eq(a, b)) fail("wrong-result", "operator== is wrong for %s and %s", fmt_ids(m[a]).c_str(), fmt_ids(m[b]).c_str());
    if ((x < y) != model_lt(a, b) || (y > x) != model_lt(a, b) || (x >= y) == model_lt(a, b) || (y <= x) == model_lt(a, b)) fail("wrong-result", "ordering operators are wrong");
    if (!(x == x)) fail("wrong-result", "a container differs from itself");
  }
  void op_bulk(const Step &s, int ci) {
    int k = 8 + (int)(s.b % (P.N > 300 ? P.N / 2 : 64)), pat = (int)(s.c % 4);
    vec<int> ids;
    for (int d = 0; d < P.N && (int)ids.size() < k; ++d) { int i = (int)((s.d + d) % P.N); if (P.pick(i)) ids.push_back(i); }
    if (pat == 0) std::sort(ids.begin(), ids.end(), [&](int a, int b) { return P.key[a] < P.key[b]; });
    if (pat == 1) std::sort(ids.begin(), ids.end(), [&](int a, int b) { return P.key[a] > P.key[b]; });
    for (int id : ids) {
      int lo = lower(ci, P.key[id]), hi = upper(ci, P.key[id]);
      if (pat == 3 && !(UNIQUE && lo != hi)) { c(ci).insert_before(P.N < 3000 ? cat(ci, hi) : hi == (int)m[ci].size() ? cc(ci).cend() : cc(ci).iterator_to(e(m[ci][hi])), e(id)); put(ci, hi, id); continue; }
      if constexpr (UNIQUE) { bool r = c(ci).insert(e(id)).second; if (r != (lo == hi)) fail("wrong-result", "bulk insert result"); if (r) put(ci, lo, id); }
      else { c(ci).insert(e(id)); put(ci, hi, id); }
    }
    SIM_PROBE("bulk insert");
  }
  // splay trees: a storm of accesses must be cheap in total
  void op_storm(const Step &s, int ci) {
    int n = (int)m[ci].size();
    if (n < 24) return skip();
    for (int i = 1; i < n; ++i) if (!lt(ci, P.key[m[ci][i - 1]], P.key[m[ci][i]])) return skip();   // the bound is about distinct keys
    u64 c0 = g.ncalls[F_CMP]; int acc = 0;
    HCmp h{mode[ci] == 1 ? 1 : 0};
    for (int rep = 0; rep < 3; ++rep)
      for (int i = 0; i < n; ++i) {
        int j = (s.b & 1) ? i : (int)((s.c + (u64)i * 7919) % n);
        HKey hk1 = hk_same(ci, P.key[m[ci][j]]);
        auto it = c(ci).find(hk1, h);
        if (it == c(ci).end()) fail("wrong-result", "find missed an element in an access storm");
        ++acc;
      }
    u64 calls = g.ncalls[F_CMP] - c0;
    double lg = std::log2((double)n + 2);
    if (KIND == K_SPLAY && calls > (u64)((acc + n) * (4 * lg + 6))) fail("complexity", "%d accesses to a splay tree of %d elements needed %llu comparisons", acc, n, (unsigned long long)calls);
    if ((KIND == K_RB || KIND == K_AVL) && calls > (u64)(acc * (2 * lg + 4))) fail("complexity", "%d lookups in %d elements needed %llu comparisons", acc, n, (unsigned long long)calls);
    SIM_PROBE("access storm");
  }
  void op_iterto(const Step &s, int ci) {
    int n = (int)m[ci].size(); if (!n) return skip();
    int pos = (int)(s.b % n); E &x = e(m[ci][pos]); const E &cx = x;
    expect_pos(ci, c(ci).iterator_to(x), pos, "iterator_to");
    expect_pos(ci, cc(ci).iterator_to(cx), pos, "iterator_to const");
    if constexpr (!STATEFUL) { expect_pos(ci, C::s_iterator_to(cx), pos, "s_iterator_to"); expect_pos(ci, C::s_iterator_to(x), pos, "s_iterator_to"); }
    It it = c(ci).iterator_to(x); It j = it; ++j; --j; if (j != it) fail("held-iterator", "++/-- does not return to the same place");
    It o = it++; if (o == it) fail("held-iterator", "post-increment did not move");
    expect_pos(ci, it, pos + 1, "post-increment"); o = it--; expect_pos(ci, it, pos, "post-decrement");
  }
  void op_alt_insert(const Step &s) {
    int id = P.take_free(s.b); if (id < 0) return skip();
    int lo = lower(3, P.key[id]), hi = upper(3, P.key[id]);
    Quiet q;
    if constexpr (!UNIQUE) { if (alt().insert(e(id)).second != (lo == hi)) fail("wrong-result", "insert into the other container"); if (lo == hi) put(3, lo, id); }
    else { alt().insert(e(id)); put(3, hi, id); }
  }
  void op_alt_erase(const Step &s) {
    int n = (int)m[3].size(); if (!n) return skip();
    int pos = (int)(s.b % n); Quiet q;
    alt().erase(alt().iterator_to(e(m[3][pos]))); take(3, pos);
  }
  bool skipped = false;
  void skip() { skipped = true; }

  void step(const Step &s) {
    int ci = (int)(s.a % 3);
    switch (s.op) {
    case T_INSERT: op_insert(s, ci); break;
    case T_INSERT_HINT: op_insert_hint(s, ci); break;
    case T_INSERT_RANGE: op_insert_range(s, ci); break;
    case T_CHECK_COMMIT: op_check_commit(s, ci); break;
    case T_INSERT_BEFORE: case T_PUSH_BACK: case T_PUSH_FRONT: op_positional(s, ci, s.op); break;
    case T_ERASE_IT: op_erase_it(s, ci); break;
    case T_ERASE_RANGE: op_erase_range(s, ci); break;
    case T_ERASE_KEY: op_erase_key(s, ci); break;
    case T_CLEAR: op_clear(s, ci); break;
    case T_LOOKUP: op_lookup(s, ci); break;
    case T_BOUNDED: op_bounded(s, ci); break;
    case T_SWAP: op_swap(s, ci); break;
    case T_MOVE_ASSIGN: op_move_assign(s, ci); break;
    case T_MOVE_CTOR: op_move_ctor(s, ci); break;
    case T_CLONE: op_clone(s, ci); break;
    case T_MERGE: op_merge(s, ci); break;
    case T_REPLACE: op_replace(s, ci); break;
    case T_REMOVE_NODE: op_remove_node(s, ci); break;
    case T_UNLINK_LEFTMOST: op_unlink_leftmost(s, ci); break;
    case T_REBALANCE: op_rebalance(s, ci); break;
    case T_REBALANCE_SUB: op_rebalance_sub(s, ci); break;
    case T_SPLAY: op_splay(s, ci); break;
    case T_BALANCE_FACTOR: op_balance_factor(s, ci); break;
    case T_RECREATE: op_recreate(s, ci); break;
    case T_CTOR_RANGE: op_ctor_range(s, ci); break;
    case T_HOLD: op_hold(s, ci); break;
    case T_DESTROY_ELEM: op_destroy_elem(s); break;
    case T_HOOK_UNLINK: op_hook_unlink(s); break;
    case T_MISUSE: op_misuse(s, ci); break;
    case T_RELOCATE: op_relocate(); break;
    case T_READERS: op_readers(s); break;
    case T_PARALLEL: op_parallel(s); break;
    case T_REKEY: op_rekey(s); break;
    case T_SWAP_NODES: op_swap_nodes(s); break;
    case T_HOOK_COPY: op_hook_copy(s); break;
    case T_COMPARE: op_compare(s, ci); break;
    case T_BULK: op_bulk(s, ci); break;
    case T_ITERTO: op_iterto(s, ci); break;
    case T_ALT_INSERT: op_alt_insert(s); break;
    case T_ALT_ERASE: op_alt_erase(s); break;
    case T_STORM: op_storm(s, ci); break;
    }
  }
  static void run(const Trace &t) {
    static TreeEngine *w = nullptr;                                // re-created per run
    delete w; w = new TreeEngine;
    w->start(t);
    w->oracle();
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i];
      w->si = i; g.slot->step = i; g.in_step = true; w->skipped = false; w->P.step_begin();
      op_begin(tree_opname(s.op));
      log("step %u %s a=%u b=%u c=%u d=%u fault=%u@%u", i, tree_opname(s.op), s.a, s.b, s.c, s.d, s.fk, s.fn);
      w->step(s);
      w->P.step_end(); ++g.slot->steps; if (w->skipped) ++g.slot->op_skipped; else ++g.slot->op_done;
      if (oracle_due(t, i, T_READERS, KIND == K_SG)) w->oracle(); else w->forget_unlinked();
    }
    // teardown: containers first, then elements (never an assertion)
    op_begin("teardown");
    for (int i = 0; i < 3; ++i) w->c(i).~C();
    w->alt().~A();
    for (int i = 0; i < w->P.N; ++i) if (w->P.owner[i] != DEAD) {
      if constexpr (SAFE) if (w->hook_linked(i)) fail("is_linked", "element %d is still linked after its container was destroyed", i);
      w->P.ptr(i)->~E();
    }
  }

  // ------------------------------------------------------------ generator
  static void gen(Rng &r, const Mode &md, Trace &t) {
    Focus f = focus_of(md.prop);
    bool big = r.chance(1, f.bulk ? 3 : 14);
    int n = big ? (int)r.range(60, f.bulk ? 260 : 120) : (int)r.range(3, r.chance(1, 3) ? 40 : 14);
    const bool huge = r.chance(1, f.bulk ? 150 : 500);
    if (huge) { big = true; n = (int)r.range(300, 2500); }
    const bool giant = !STATEFUL && KIND != K_BS && r.chance(1, f.bulk || f.compound || f.transfer ? 5000 : 20000);
    if (giant) { big = true; n = (int)r.range(4000, KIND == K_SPLAY ? 9000 : 24000); }
    int kr = r.chance(1, 3) ? 3 + (int)r.below(5) : r.chance(1, 2) ? n : 4 * n + 4;
    u32 modes = 0;
    if (r.chance(1, 2)) for (int i = 0; i < 4; ++i) modes |= r.below(3) << (2 * i);
    t.params = {(u32)n, (u32)kr, modes, (u32)r.below(2), r.chance(1, 3) ? 2u : 1000u};
    if (giant) t.params[4] = 100000;
    OpMix w(T_NOPS);
    static const u32 base[T_NOPS] = {
      30, 14, 6, UNIQUE ? 10 : 0, 8, 5, 5,
      14, 4, 6, 1, 14, 5, 3, 2, 2,
      3, 5, 4, CT ? 0 : 4, 2, 2, 2, 3,
      1, 1, 2, 4, 4, AUTO && !ANY ? 6 : 0, SAFE ? 3 : 0, RELOC ? 2 : 0,
      2, 1, 3, ANY || !HOOK ? 0 : 4, HOOK ? 2 : 0, 2, 0, 3, 5, 1, 0};
    for (u32 i = 0; i < T_NOPS; ++i) w.set(i, base[i]);
    if (KIND != K_SPLAY) w.set(T_SPLAY, 0);
    if (KIND != K_SG) w.set(T_BALANCE_FACTOR, 0);
    if (KIND == K_RB || KIND == K_AVL || KIND == K_TREAP) { w.set(T_REBALANCE, 0); w.set(T_REBALANCE_SUB, 0); }
    if (KIND == K_TREAP || KIND == K_SG) w.set(T_REMOVE_NODE, 0);
    w.swarm(r);
    if (w.w[T_INSERT] < 20) w.w[T_INSERT] = 20;
    if (big) { w.w[T_BULK] = 20; w.w[T_STORM] = 2; w.w[T_CLEAR] = 0; w.w[T_ERASE_RANGE] = std::min(w.w[T_ERASE_RANGE], 2u); }
    auto boost_ = [&](u32 op, u32 v) { if (base[op]) w.w[op] = std::max(w.w[op], v); };
    if (giant) { w.w[T_BULK] = 40; w.w[T_RECREATE] = w.w[T_READERS] = w.w[T_PARALLEL] = 0; }
    if (f.bulk) { w.w[T_BULK] = 20; w.w[T_STORM] = 6; boost_(T_ERASE_IT, 60); }
    if (f.readers) { boost_(T_READERS, 30); }
    if (f.parallel) w.w[T_PARALLEL] = 40;
    if (f.reloc) boost_(T_RELOCATE, 25);
    if (f.clone) boost_(T_CLONE, 40);
    if (f.transfer) { boost_(T_MERGE, 30); boost_(T_ALT_INSERT, 20); }
    if (f.iters) { boost_(T_HOLD, 30); boost_(T_ITERTO, 15); }
    if (f.swapmove) { boost_(T_SWAP, 20); boost_(T_MOVE_ASSIGN, 15); boost_(T_MOVE_CTOR, 15); boost_(T_RECREATE, 5); }
    if (f.commit) boost_(T_CHECK_COMMIT, 50);
    if (f.positional) { boost_(T_INSERT_BEFORE, 20); boost_(T_PUSH_BACK, 12); boost_(T_PUSH_FRONT, 12); boost_(T_REMOVE_NODE, 15); boost_(T_UNLINK_LEFTMOST, 10); if (w.w[T_REBALANCE] || KIND == K_SG || KIND == K_SPLAY || KIND == K_BS) { w.w[T_REBALANCE] = 8; w.w[T_REBALANCE_SUB] = 12; } if (KIND == K_SPLAY) w.w[T_SPLAY] = 15; if (KIND == K_SG) w.w[T_BALANCE_FACTOR] = 5; }
    if (f.dispose) { boost_(T_ERASE_IT, 20); boost_(T_ERASE_RANGE, 12); boost_(T_ERASE_KEY, 15); boost_(T_CLEAR, 8); boost_(T_CLONE, 10); }
    if (f.safe) { boost_(T_MISUSE, 20); boost_(T_DESTROY_ELEM, 10); boost_(T_RECREATE, 4); boost_(T_HOOK_COPY, 8); }
    if (f.autoun) { boost_(T_HOOK_UNLINK, 25); boost_(T_DESTROY_ELEM, 20); boost_(T_HOOK_COPY, 8); }
    if (f.nodes) { boost_(T_SWAP_NODES, 30); boost_(T_REPLACE, 20); }
    if (f.compound) { boost_(T_MERGE, 20); boost_(T_INSERT_RANGE, 20); boost_(T_CTOR_RANGE, 8); boost_(T_ALT_INSERT, 15); boost_(T_ERASE_RANGE, 10); boost_(T_ERASE_KEY, 10); }
    if (f.single) { boost_(T_INSERT, 40); boost_(T_INSERT_HINT, 25); boost_(T_CHECK_COMMIT, 20); boost_(T_LOOKUP, 20); if (KIND == K_TREAP) { boost_(T_ERASE_IT, 25); boost_(T_INSERT_BEFORE, 12); boost_(T_PUSH_BACK, 8); boost_(T_PUSH_FRONT, 8); } }
    u32 fprob = f.faults ? 50 : 8;                                  // percent of steps carrying a fault
    if (giant) w.w[T_READERS] = w.w[T_PARALLEL] = 0;
    const u32 span = giant ? 1u << 20 : 4096;
    int steps = giant ? (int)r.range(5, 14) : (int)r.range(8, huge ? 20 : f.bulk || big ? 40 : 60);
    bool anyfib = false;
    for (int i = 0; i < steps; ++i) {
      Step s;
      s.op = i < 3 ? (big ? (u32)T_BULK : (u32)T_INSERT) : w.pick(r);
      s.a = r.below(64); if (r.chance(1, 2)) s.a -= s.a % 3;        // favour container 0
      s.b = r.below(span); s.c = r.below(span); s.d = r.below(span);
      if (r.below(100) < fprob) {
        s.fk = s.op == T_CLONE ? (u32)F_CLONE : (KIND == K_TREAP && r.chance(1, 2)) ? (u32)F_PRIO : (u32)F_CMP;
        s.fn = r.chance(1, 2) ? r.range(1, 4) : r.range(1, giant ? 100000 : 24);
        if (s.op == T_CLONE && r.chance(1, 5)) { s.fk = F_FCOPY; s.fn = 1; }
      }
      anyfib |= s.op == T_READERS || s.op == T_PARALLEL;
      t.steps.push_back(s);
    }
    if (anyfib) { u32 k = r.chance(1, 4) ? 6 : 250; u32 style = r.below(3); for (u32 i = 0; i < k; ++i) t.sched.push_back(r.below(8) | ((style == 0 ? 0 : style == 1 ? r.below(4) : r.below(40)) << 3)); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "tree", gen, run, tree_opname}; }
};
} // namespace sim
#define SIM_TREE_CONFIG(CFG, NAME) static ::sim::Registrar reg_##CFG(::sim::TreeEngine<CFG>::entry(NAME));

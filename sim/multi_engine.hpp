// Simulation of elements that live in several containers at once.
// World: one pool of elements whose type owns several hooks; every hook ("group")
// serves several containers, of one kind or (any hooks, shared binary-tree hooks)
// of different kinds in turn.  Operations hit one container at a time; after every
// step all containers and every hook of every element are checked, so an operation
// that leaks into another hook, container or element is seen at once.
#pragma once
#include "world.hpp"
#include <boost/intrusive/intrusive_fwd.hpp>
#include <boost/intrusive/pointer_traits.hpp>
#include <boost/move/utility_core.hpp>
#include <memory>
#include <map>

namespace sim {
enum MultiOp { U_INSERT, U_REMOVE, U_ERASE_RANGE, U_CLEAR, U_XFER, U_SWAP, U_MOVE, U_REORDER, U_LOOKUP, U_KILL, U_HOOK_UNLINK, U_DRAIN, U_DISPOSE_KILL,
  U_RECREATE, U_ASSIGN_ELEM, U_FILL, U_ITERTO, U_PARALLEL, U_RELOCATE, U_READERS, U_NOPS };
inline const char *multi_opname(u32 o) {
  static const char *n[] = {"insert", "remove", "erase(range)", "clear", "transfer", "swap", "move_construct", "reorder", "lookup", "destroy_element", "hook_unlink", "drain_into_other",
    "clear_and_destroy_elements", "destroy+recreate", "assign_element", "insert_everywhere", "iterator_to", "parallel_containers", "relocate", "concurrent_readers"};
  return o < U_NOPS ? n[o] : "?";
}
struct MHash { size_t operator()(const Data &d) const { fcall(F_HASH); return (size_t)(d.key * 7); } };
struct MEq { bool operator()(const Data &a, const Data &b) const { fcall(F_EQ); return a.key == b.key; } };

template <class E> struct MultiWorld;
template <class E> struct Box {
  MultiWorld<E> *w = nullptr;
  const char *kind = "";
  int group = 0, idx = 0;
  bool safe = false, autou = false, ordered = false, hashed = false;
  vec<int> m;                     // expected contents, in order unless hashed
  size_t off[2]; int cur = 0;             // two places to move between
  Box *peer = nullptr;                    // another container of the same type and group
  virtual ~Box() {}
  virtual void construct() = 0;
  virtual void destruct() = 0;
  virtual void reinit() = 0;
  virtual bool insert(int id, u32 where, const Step *s) = 0;
  virtual void remove(int id) = 0;
  virtual void erase_range(size_t i, size_t j, int mode, Box *sink) = 0;
  virtual void clear(int mode, Box *sink) = 0;
  virtual void xfer(const Step &s) = 0;
  virtual void swap_peer() = 0;
  virtual void move_away() = 0;
  virtual void reorder(const Step &s) = 0;
  virtual void lookup(u32 r) = 0;
  virtual void read(bool back) = 0;
  virtual void iterto(int id) = 0;
  virtual bool linked(int id) = 0;
  virtual void hook_unlink(int id) = 0;
  virtual void check() = 0;
  int pos(int id) { for (size_t i = 0; i < m.size(); ++i) if (m[i] == id) return (int)i; return -1; }
};

template <class E> struct MultiWorld {
  Pool<E> P;
  vec<std::unique_ptr<Box<E>>> boxes;
  vec<vec<int>> owner;    // [group][element] -> box or -1
  const Trace *tr = nullptr; u32 si = 0; size_t schedpos = 0;
  int keyrange = 8;
  bool skipped = false;
  void skip() { skipped = true; }
  E &e(int id) { return P.e(id); }
  // Adds n containers of the same type to a group.
  template <class B> void add(int group, int n = 2) {
    while ((int)owner.size() <= group) owner.push_back(vec<int>(P.N, -1));
    int first = (int)boxes.size();
    for (int i = 0; i < n; ++i) {
      boxes.emplace_back(new B);
      Box<E> &b = *boxes.back(); b.w = this; b.group = group; b.idx = (int)boxes.size() - 1;
      b.construct();
    }
    for (int i = 0; i < n; ++i) boxes[first + i]->peer = n > 1 ? boxes[first + (i + 1) % n].get() : nullptr;
  }
  bool lt(int a, int b) { return P.key[a] < P.key[b]; }
  void own(Box<E> &b, int id) { owner[b.group][id] = b.idx; }
  void disown(Box<E> &b, int id) { owner[b.group][id] = -1; }
  int alive(u32 start) { for (int d = 0; d < P.N; ++d) { int i = (int)((start + d) % P.N); if (P.owner[i] != DEAD) { P.shadow(i, SH_OK); return i; } } return -1; }
  int free_in(int g, u32 start) {
    for (int d = 0; d < P.N; ++d) {
      int i = (int)((start + d) % P.N);
      if (P.owner[i] == DEAD) { P.create(i, P.key[i], P.prio[i]); return i; }
      if (owner[g][i] < 0) { P.shadow(i, SH_OK); return i; }
    }
    return -1;
  }
  // Destroys an element: it first leaves every container that cannot cope with its disappearance.
  void kill(int id) {
    for (size_t g = 0; g < owner.size(); ++g) if (owner[g][id] >= 0) {
      Box<E> &b = *boxes[owner[g][id]];
      if (b.autou) { b.m.erase(b.m.begin() + b.pos(id)); disown(b, id); SIM_PROBE("multi: auto-unlink hook left on destruction"); }
      else b.remove(id);
    }
    P.kill(id);
  }
  struct Dctx { MultiWorld *w; Box<E> *b; int mode; Box<E> *sink; vec<int> got; };
  struct Disposer {
    Dctx *d;
    template <class Ptr> void operator()(Ptr p) const {
      MultiWorld &w = *d->w;
      int id = w.P.id_of(static_cast<const E *>(to_raw(p)));
      if (id < 0) fail("dispose", "%s: disposer called with a pointer to %s", d->b->kind, id == -2 ? "an already destroyed element" : "something that is not an element");
      for (int x : d->got) if (x == id) fail("dispose", "%s: disposer called twice for element %d", d->b->kind, id);
      d->got.push_back(id);
      if (w.owner[d->b->group][id] != d->b->idx) fail("dispose", "%s: disposer called for element %d, which was not in the container", d->b->kind, id);
      if (d->b->safe && d->b->linked(id)) fail("dispose", "%s: element %d handed to the disposer while still linked", d->b->kind, id);
      w.disown(*d->b, id);
      if (d->mode == 1) { Quiet q; w.kill(id); }
      else if (d->mode == 2 && d->sink && w.owner[d->sink->group][id] < 0) { Quiet q; d->sink->insert(id, (u32)id * 5, nullptr); }
    }
  };
  void disposed(Dctx &d, const vec<int> &want) { expect_ids(sorted(d.got), sorted(want), "dispose", d.b->kind); }

  void oracle() {
    Quiet q;
    P.verify_data();
    for (auto &b : boxes) b->check();
    for (auto &b : boxes) for (int id : b->m) if (owner[b->group][id] != b->idx) fail("harness", "owner mismatch");
    for (size_t g = 0; g < owner.size(); ++g) {
      Box<E> *any = nullptr; for (auto &b : boxes) if (b->group == (int)g) any = b.get();
      for (int i = 0; i < P.N; ++i) if (P.owner[i] != DEAD && any->safe) {
        bool l = any->linked(i);
        if (l != (owner[g][i] >= 0)) fail("is_linked", "element %d: hook %zu reports is_linked()=%d but the element is in %s", i, g, (int)l, owner[g][i] >= 0 ? boxes[owner[g][i]]->kind : "no container of that hook");
      }
    }
    u64 h = 77; for (auto &b : boxes) { for (int id : b->m) h = mix(h, id + 1); h = mix(h, 0x999); }
    g.states.add(mix(h, hash_str(tr->cfg.c_str())));
    lognum(h);
  }
};

// common part of all boxes: container access, iteration check, disposal
template <class E, class V, class C_, class H> struct BoxT : Box<E> {
  typedef C_ C; typedef MultiWorld<E> W;
  typedef typename C::iterator It; typedef typename C::const_iterator CIt;
  using Box<E>::w; using Box<E>::m; using Box<E>::kind;
  static const int LM = C::value_traits::link_mode;
  static const bool CT = C::constant_time_size;
  C &c() { return *(C *)arena_at(this->off[this->cur]); }
  C &pc() { return static_cast<BoxT *>(this->peer)->c(); }
  V &v(int id) { return w->e(id); }
  int id_of(const V *p) { int i = p->id; if (i < 0 || i >= w->P.N || (const V *)w->P.ptr(i) != p) fail("contents", "%s %d: an iterator denotes something that is not an element", kind, this->idx); return i; }
  void init(const char *k) {
    kind = k; this->safe = LM != boost::intrusive::normal_link; this->autou = LM == boost::intrusive::auto_unlink;
    this->off[0] = arena_alloc(sizeof(C), 16); this->off[1] = arena_alloc(sizeof(C), 16);
  }
  It nth(size_t i) { Quiet q; It it = c().begin(); while (i--) ++it; return it; }
  bool linked(int id) override { if constexpr (LM != boost::intrusive::normal_link) return H::get(w->e(id)).is_linked(); else return false; }
  void hook_unlink(int id) override {
    if constexpr (LM == boost::intrusive::auto_unlink) { if constexpr (requires { H::get(w->e(id)).unlink(); }) { H::get(w->e(id)).unlink(); gone(id); } else remove_(id); }
    else remove_(id);
  }
  void remove_(int id) { this->remove(id); }
  void gone(int id) { m.erase(m.begin() + this->pos(id)); w->disown(*this, id); }
  void destruct() override { c().~C(); }
  void check_iter(const char *what) {
    const C &x = c(); size_t k = 0;
    vec<int> got;
    for (CIt it = x.cbegin(); it != x.cend(); ++it, ++k) { if (k > m.size()) break; got.push_back(id_of(&*it)); }
    if (!this->hashed) { if (got != m) fail("contents", "%s %d: %s sees %s, expected %s", kind, this->idx, what, fmt_ids(got).c_str(), fmt_ids(m).c_str()); }
    else {
      if (sorted(got) != sorted(m)) fail("contents", "%s %d: %s sees %s, expected the elements %s", kind, this->idx, what, fmt_ids(got).c_str(), fmt_ids(m).c_str());
      for (size_t i = 0; i < got.size(); ++i) for (size_t j = i + 2; j < got.size(); ++j) if (w->P.key[got[i]] == w->P.key[got[j]] && w->P.key[got[j - 1]] != w->P.key[got[j]]) fail("contents", "%s %d: equal elements are not adjacent", kind, this->idx);
    }
    if (x.size() != m.size() || x.empty() != m.empty()) fail("size", "%s %d: size() is %zu, expected %zu", kind, this->idx, (size_t)x.size(), m.size());
  }
  void check() override { check_iter("iteration"); if constexpr (requires { c().check(); }) c().check(); back_check(); }
  void back_check() {
    if constexpr (requires { c().rbegin(); }) { if (!this->hashed) { size_t k = m.size(); for (auto it = c().rbegin(); it != c().rend(); ++it) { if (!k || id_of(&*it) != m[k - 1]) fail("contents", "%s %d: reverse iteration differs", kind, this->idx); --k; } if (k) fail("contents", "%s %d: reverse iteration is short", kind, this->idx); } }
  }
  void read(bool back) override { if (back) back_check(); else check_iter("a reader"); }
  void iterto(int id) override {
    It it = c().iterator_to(v(id)); CIt ci = const_cast<const C &>(c()).iterator_to(const_cast<const V &>(v(id)));
    if (&*it != &v(id) || &*ci != &v(id)) fail("bad-iterator", "%s: iterator_to does not denote the element", kind);
    if (!this->hashed) { int p = this->pos(id); ++it; if (p + 1 == (int)m.size() ? it != c().end() : &*it != &v(m[p + 1])) fail("bad-iterator", "%s: ++iterator_to is not the next element", kind); }
  }
  void erase_range(size_t i, size_t j, int mode, Box<E> *sink) override {
    if (this->hashed) { j = i + (j > i ? 1 : 0); if (i >= m.size()) { w->skip(); return; } }
    vec<int> ids(m.begin() + i, m.begin() + j);
    typename W::Dctx d{w, this, mode, sink, {}};
    It f, l;
    if (this->hashed) { if (ids.empty()) return; f = c().iterator_to(v(ids[0])); l = f; { Quiet q; ++l; } }
    else { f = nth(i); l = nth(j); }
    m.erase(m.begin() + i, m.begin() + j);
    if (mode) { c().erase_and_dispose(CIt(f), CIt(l), typename W::Disposer{&d}); w->disposed(d, ids); }
    else { c().erase(CIt(f), CIt(l)); for (int id : ids) w->disown(*this, id); }
  }
  void clear(int mode, Box<E> *sink) override {
    vec<int> ids; ids.swap(m);
    typename W::Dctx d{w, this, mode, sink, {}};
    if (mode) { c().clear_and_dispose(typename W::Disposer{&d}); w->disposed(d, ids); }
    else {
      c().clear();
      for (int id : ids) w->disown(*this, id);
    }
  }
  void swap_peer() override {
    if (!this->peer) { w->skip(); return; }
    c().swap(pc());
    m.swap(this->peer->m);
    for (int id : m) w->own(*this, id);
    for (int id : this->peer->m) w->own(*this->peer, id);
  }
  void move_away() override {
    C *n = new (arena_at(this->off[1 - this->cur])) C(boost::move(c()));
    if (!c().empty()) fail("move", "%s: the moved-from container is not empty", kind);
    c().~C(); memset((void *)arena_at(this->off[this->cur]), FILL_DEAD, sizeof(C));
    this->cur = 1 - this->cur; (void)n;
  }
};

template <class E, class V, class C, class H> struct SeqBox : BoxT<E, V, C, H> {
  typedef BoxT<E, V, C, H> B; typedef typename B::It It; typedef typename B::CIt CIt;
  using B::w; using B::m; using B::c;
  void construct() override { this->init("list"); reinit(); }
  void reinit() override { this->cur = 0; new (arena_at(this->off[0])) C(); }
  bool insert(int id, u32 where, const Step *) override {
    size_t p = where % (m.size() + 1);
    if (p == 0 && (where & 64)) c().push_front(this->v(id));
    else { It r = c().insert(CIt(this->nth(p)), this->v(id)); if (&*r != &this->v(id)) fail("bad-iterator", "list insert"); }
    m.insert(m.begin() + p, id); w->own(*this, id);
    return true;
  }
  void remove(int id) override { c().erase(c().iterator_to(this->v(id))); this->gone(id); }
  void xfer(const Step &s) override {
    if (!this->peer) return w->skip();
    Box<E> &o = *this->peer; C &x = this->pc();
    size_t p = s.c % (m.size() + 1), i = s.d % (o.m.size() + 1), j = i + (s.d >> 6) % (o.m.size() - i + 1);
    auto onth = [&](size_t k) { return static_cast<B &>(o).nth(k); };
    if (s.b % 3 == 0) { c().splice(CIt(this->nth(p)), x); i = 0; j = o.m.size(); }
    else if (s.b % 3 == 1) { if (i == o.m.size()) return w->skip(); c().splice(CIt(this->nth(p)), x, CIt(onth(i))); j = i + 1; }
    else c().splice(CIt(this->nth(p)), x, CIt(onth(i)), CIt(onth(j)));
    vec<int> ids(o.m.begin() + i, o.m.begin() + j);
    o.m.erase(o.m.begin() + i, o.m.begin() + j);
    m.insert(m.begin() + p, ids.begin(), ids.end());
    for (int id : ids) w->own(*this, id);
  }
  void reorder(const Step &s) override {
    if (s.c & 1) { c().reverse(); std::reverse(m.begin(), m.end()); }
    else { c().sort(Cmp(0)); stable_insertion_sort(m.begin(), m.end(), [&](int a, int b) { return w->lt(a, b); }); }
  }
  void lookup(u32) override { if (!m.empty()) if (this->id_of(&c().front()) != m[0]) fail("wrong-result", "front()"); }
};

template <class E, class V, class C, class H, bool UNIQ> struct TreeBox : BoxT<E, V, C, H> {
  typedef BoxT<E, V, C, H> B; typedef typename B::It It; typedef typename B::CIt CIt;
  using B::w; using B::m; using B::c;
  void construct() override { this->init("ordered container"); this->ordered = true; reinit(); }
  void reinit() override { this->cur = 0; new (arena_at(this->off[0])) C(); }
  size_t lower(int k) { size_t i = 0; while (i < m.size() && w->P.key[m[i]] < k) ++i; return i; }
  size_t upper(int k) { size_t i = 0; while (i < m.size() && w->P.key[m[i]] <= k) ++i; return i; }
  bool insert(int id, u32, const Step *s) override {
    int k = w->P.key[id]; size_t lo = lower(k), hi = upper(k);
    bool did = true, threw = false;
    auto go = [&] { if constexpr (UNIQ) did = c().insert(this->v(id)).second; else c().insert(this->v(id)); };
    if (s && !g.in_fibers) { Arm arm(*s, SIM_BIT(F_CMP) | SIM_BIT(F_PRIO)); threw = attempt(go); } else go();
    if (threw) { SIM_PROBE("multi: insert threw"); return false; }
    if (UNIQ && did != (lo == hi)) fail("wrong-result", "insert into a unique container reported %d", (int)did);
    if (did) { m.insert(m.begin() + hi, id); w->own(*this, id); }
    return did;
  }
  void remove(int id) override { c().erase(C::s_iterator_to(this->v(id))); this->gone(id); }
  void xfer(const Step &) override {
    if (!this->peer) return w->skip();
    Box<E> &o = *this->peer;
    c().merge(this->pc());
    vec<int> rest;
    for (int id : o.m) {
      size_t lo = lower(w->P.key[id]), hi = upper(w->P.key[id]);
      if (UNIQ && lo != hi) rest.push_back(id);
      else { m.insert(m.begin() + hi, id); w->own(*this, id); }
    }
    o.m = rest;
  }
  void reorder(const Step &s) override {
    // rebalance() is documented for unbalanced, splay and scapegoat trees only
    typedef typename C::node_traits NT; typedef typename C::node_ptr NP;
    if constexpr (requires(NP p) { NT::get_color(p); } || requires(NP p) { NT::get_balance(p); } || requires { c().priority_comp(); }) w->skip();
    else if constexpr (requires { c().rebalance(); }) { if (s.c & 1) c().rebalance(); else if (!m.empty()) c().rebalance_subtree(this->nth(s.c % m.size())); }
    if constexpr (requires { c().splay_up(c().begin()); }) { if (!m.empty()) c().splay_up(this->nth(s.c % m.size())); }
    else w->skip();
  }
  void lookup(u32 r) override {
    int k = (int)(r % (w->keyrange + 1));
    alignas(E) char buf[sizeof(E)]; E *p = new (buf) E; p->key = k; p->prio = 0;
    const C &x = c(); size_t lo = lower(k), hi = upper(k);
    size_t n = x.count(*p);
    if (n != hi - lo) fail("wrong-result", "count(%d) is %zu, expected %zu", k, n, hi - lo);
    CIt a = x.lower_bound(*p), b = x.upper_bound(*p), f = x.find(*p);
    if ((lo == m.size()) != (a == x.cend()) || (hi == m.size()) != (b == x.cend()) || (lo < m.size() && this->id_of(&*a) != m[lo]) || (hi < m.size() && this->id_of(&*b) != m[hi])) fail("wrong-result", "lower/upper_bound(%d)", k);
    if ((f == x.cend()) != (lo == hi) || (lo != hi && w->P.key[this->id_of(&*f)] != k)) fail("wrong-result", "find(%d)", k);
    p->~E();
  }
};

template <class E, class V, class C, class H, bool UNIQ> struct HashBox : BoxT<E, V, C, H> {
  typedef BoxT<E, V, C, H> B; typedef typename B::It It; typedef typename B::CIt CIt;
  typedef typename C::bucket_type Bucket; typedef typename C::bucket_traits BT; typedef typename C::bucket_ptr BP;
  using B::w; using B::m; using B::c;
  enum { CAP = 20 };
  size_t boff[3]; int bcur = 0;
  void construct() override { this->init("unordered container"); this->hashed = true; for (auto &o : boff) { o = arena_alloc(sizeof(Bucket) * CAP, 16); poison(o); } reinit(); }
  void poison(size_t o) { memset((void *)arena_at(o), FILL_DEAD, sizeof(Bucket) * CAP); }
  BT bt(int i, u32 n) { Bucket *b = (Bucket *)arena_at(boff[i]); for (u32 k = 0; k < n + C::bucket_overhead; ++k) new (b + k) Bucket(); return BT(boost::intrusive::pointer_traits<BP>::pointer_to(*b), n + C::bucket_overhead); }
  void reinit() override { this->cur = 0; new (arena_at(this->off[0])) C(bt(bcur, 8)); }
  bool has(int k) { for (int i : m) if (w->P.key[i] == k) return true; return false; }
  bool insert(int id, u32, const Step *s) override {
    bool dup = has(w->P.key[id]), did = true, threw = false;
    auto go = [&] { if constexpr (UNIQ) did = c().insert(this->v(id)).second; else c().insert(this->v(id)); };
    if (s && !g.in_fibers) { Arm arm(*s, SIM_BIT(F_HASH) | SIM_BIT(F_EQ)); threw = attempt(go); } else go();
    if (threw) { SIM_PROBE("multi: insert threw"); return false; }
    if (UNIQ && did == dup) fail("wrong-result", "insert into a unique unordered container reported %d", (int)did);
    if (did) { m.push_back(id); w->own(*this, id); }
    return did;
  }
  void remove(int id) override { c().erase(c().iterator_to(this->v(id))); this->gone(id); }
  void xfer(const Step &s) override {                     // element-wise: there is no merge
    if (!this->peer || this->peer->m.empty()) return w->skip();
    Box<E> &o = *this->peer; int id = o.m[s.c % o.m.size()];
    o.remove(id); insert(id, 0, nullptr);
  }
  void swap_peer() override { B::swap_peer(); if (!this->peer) return; HashBox &o = static_cast<HashBox &>(*this->peer); std::swap(boff[bcur], o.boff[o.bcur]); }
  void reorder(const Step &s) override {
    int nb = (bcur + 1) % 3; u32 n = (s.c & 1) ? 8 : (s.c & 2) ? 16 : 4;
    c().rehash(bt(nb, n)); poison(boff[bcur]); bcur = nb;
  }
  void lookup(u32 r) override {
    int k = (int)(r % (w->keyrange + 1)); size_t want = 0; for (int i : m) want += w->P.key[i] == k;
    alignas(E) char buf[sizeof(E)]; E *p = new (buf) E; p->key = k; p->prio = 0;
    const C &x = c();
    size_t n = x.count(*p); if (n != want) fail("wrong-result", "count(%d) is %zu, expected %zu", k, n, want);
    auto f = x.find(*p); if ((f == x.cend()) != !want) fail("wrong-result", "find(%d)", k);
    p->~E();
  }
};

template <class Cfg> struct MultiEngine {
  typedef typename Cfg::E E; typedef MultiWorld<E> W;
  static const bool RELOC = Cfg::reloc;
  struct PCtx { W *w; u64 seed; int nops; vec<int> groups; };
  static void par_body(void *v, int f) {
    PCtx &p = *(PCtx *)v; W &w = *p.w; Rng r(mix(p.seed, f)); int grp = p.groups[f];
    vec<Box<E> *> bs; for (auto &b : w.boxes) if (b->group == grp) bs.push_back(b.get());
    for (int i = 0; i < p.nops; ++i) {
      Box<E> &b = *bs[r.below((u32)bs.size())];
      switch (r.below(6)) {
      case 0: case 1: case 2: { int id = -1; u32 st = r.below(64); for (int d = 0; d < w.P.N; ++d) { int j = (int)((st + d) % w.P.N); if (w.P.owner[j] != DEAD && w.owner[grp][j] < 0) { id = j; break; } } if (id >= 0) b.insert(id, r.below(4096), nullptr); break; }
      case 3: if (!b.m.empty()) b.remove(b.m[r.below((u32)b.m.size())]); break;
      case 4: b.lookup(r.below(4096)); break;
      case 5: b.read(r.chance(1, 2)); break;
      }
    }
  }
  static void read_body(void *v, int f) {
    PCtx &p = *(PCtx *)v; W &w = *p.w; Rng r(mix(p.seed, f));
    for (int i = 0; i < p.nops; ++i) {
      Box<E> &b = *w.boxes[r.below((u32)w.boxes.size())];
      switch (r.below(3)) { case 0: b.lookup(r.below(4096)); break; case 1: b.read(false); break; case 2: b.read(true); break; }
    }
  }
  static void step(W &w, const Step &s) {
    Box<E> &b = *w.boxes[s.a % w.boxes.size()];
    switch (s.op) {
    case U_INSERT: { int id = w.free_in(b.group, s.b); if (id < 0) return w.skip(); b.insert(id, s.c, &s); break; }
    case U_REMOVE: if (b.m.empty()) return w.skip(); b.remove(b.m[s.b % b.m.size()]); break;
    case U_ERASE_RANGE: { size_t i = s.b % (b.m.size() + 1), j = i + s.c % (b.m.size() - i + 1); b.erase_range(i, j, (int)(s.d % 3 == 0), nullptr); break; }
    case U_CLEAR: b.clear(0, nullptr); break;
    case U_XFER: b.xfer(s); break;
    case U_SWAP: b.swap_peer(); break;
    case U_MOVE: b.move_away(); break;
    case U_REORDER: b.reorder(s); break;
    case U_LOOKUP: b.lookup(s.b); break;
    case U_KILL: { int id = w.alive(s.b); if (id < 0) return w.skip(); w.kill(id); break; }
    case U_HOOK_UNLINK: {
      if (b.m.empty() || !b.autou) return w.skip();
      b.hook_unlink(b.m[s.b % b.m.size()]); SIM_PROBE("multi: hook unlink"); break; }
    case U_DRAIN: {
      Box<E> *sink = nullptr;
      for (size_t d = 1; d < w.boxes.size(); ++d) { Box<E> &o = *w.boxes[(b.idx + d + s.b) % w.boxes.size()]; if (&o != &b && ((s.c & 1) || o.group == b.group)) { sink = &o; break; } }
      if (!sink) return w.skip();
      if (s.d & 1) b.clear(2, sink); else { size_t i = s.d % (b.m.size() + 1); b.erase_range(i, b.m.size(), 2, sink); }
      SIM_PROBE("multi: drained into another container"); break; }
    case U_DISPOSE_KILL: {
      if (s.d & 1) b.clear(1, nullptr); else { size_t i = s.d % (b.m.size() + 1); b.erase_range(i, b.m.size(), 1, nullptr); }
      SIM_PROBE("multi: disposer destroyed elements linked elsewhere"); break; }
    case U_RECREATE: {
      if (!b.safe) b.clear(0, nullptr);
      vec<int> ids; ids.swap(b.m); b.destruct(); for (int id : ids) w.disown(b, id);
      b.reinit(); break; }
    case U_ASSIGN_ELEM: {
      int x = w.alive(s.b), y = w.alive(s.c); if (x < 0 || x == y) return w.skip();
      CopyOk ok; Data dx = w.e(x); w.e(x) = w.e(y); static_cast<Data &>(w.e(x)) = dx; SIM_PROBE("multi: element assigned"); break; }
    case U_FILL: {
      int id = w.alive(s.b); if (id < 0) return w.skip();
      for (size_t k = 0; k < w.boxes.size(); ++k) { Box<E> &o = *w.boxes[(k + s.c) % w.boxes.size()]; if (w.owner[o.group][id] < 0) o.insert(id, s.d, nullptr); }
      break; }
    case U_ITERTO: if (b.m.empty()) return w.skip(); b.iterto(b.m[s.b % b.m.size()]); break;
    case U_PARALLEL: {
      PCtx p{&w, mix(w.tr->seed, w.si), 3 + (int)(s.b % 6), {}};
      int G = (int)w.owner.size(), n = std::min(4, G);
      for (int i = 0; i < n; ++i) p.groups.push_back((int)(s.a + i) % G);
      w.P.step_end(); Fibers::run(n, par_body, &p, w.tr->sched, w.schedpos); SIM_PROBE("multi: parallel batch"); break; }
    case U_READERS: {
      PCtx p{&w, mix(w.tr->seed, w.si), 2 + (int)(s.b % 6), {}};
      arena_protect(true); Fibers::run(2 + (int)(s.a % 3), read_body, &p, w.tr->sched, w.schedpos); arena_protect(false); break; }
    case U_RELOCATE: if (!RELOC) return w.skip(); arena_relocate(); break;
    }
  }
  static void run(const Trace &t) {
    static W *w = nullptr;
    delete w; w = new W; w->tr = &t;
    int n = (int)t.param(0, 8); w->keyrange = (int)t.param(1, 8);
    w->P.setup(n);
    Rng r(mix(t.seed, 4242));
    for (int i = 0; i < n; ++i) w->P.create(i, (int)r.below(w->keyrange), (int)r.below(10));
    Cfg::setup(*w);
    w->oracle();
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i];
      w->si = i; g.slot->step = i; g.in_step = true; w->skipped = false; for (int k = 0; k < w->P.N; ++k) if (w->P.owner[k] != DEAD) { bool used = false; for (auto &o : w->owner) used |= o[k] >= 0; if (!used) w->P.shadow(k, SH_FREE); }
      op_begin(multi_opname(s.op));
      log("step %u %s a=%u b=%u c=%u d=%u fault=%u@%u", i, multi_opname(s.op), s.a, s.b, s.c, s.d, s.fk, s.fn);
      step(*w, s);
      w->P.step_end(); ++g.slot->steps; if (w->skipped) ++g.slot->op_skipped; else ++g.slot->op_done;
      if (oracle_due(t, i, U_READERS)) w->oracle();
    }
    op_begin("teardown");
    for (auto &b : w->boxes) { if (!b->safe) b->clear(0, nullptr); b->destruct(); b->m.clear(); for (auto &o : w->owner[b->group]) if (o == b->idx) o = -1; }
    for (int i = 0; i < n; ++i) if (w->P.owner[i] != DEAD) {
      for (auto &b : w->boxes) if (b->safe && b->linked(i)) fail("is_linked", "element %d is still linked after its containers were destroyed", i);
      w->P.ptr(i)->~E();
    }
  }
  static void gen(Rng &r, const Mode &md, Trace &t) {
    Focus f = focus_of(md.prop);
    int n = (int)r.range(2, r.chance(1, 4) ? 24 : 9);
    t.params = {(u32)n, (u32)(r.chance(1, 2) ? n : r.range(1, 12))};
    OpMix w(U_NOPS);
    static const u32 base[U_NOPS] = {40, 14, 4, 2, 8, 4, 3, 6, 5, 5, 8, 4, 2, 1, 3, 8, 5, 2, RELOC ? 3 : 0, 1};
    for (u32 i = 0; i < U_NOPS; ++i) w.set(i, base[i]);
    w.swarm(r);
    if (w.w[U_INSERT] < 20) w.w[U_INSERT] = 20;
    auto b_ = [&](u32 op, u32 v) { if (base[op]) w.w[op] = std::max(w.w[op], v); };
    if (f.parallel) b_(U_PARALLEL, 25);
    if (f.readers) b_(U_READERS, 25);
    if (f.reloc) b_(U_RELOCATE, 20);
    if (f.transfer) { b_(U_XFER, 25); b_(U_DRAIN, 10); }
    if (f.dispose) { b_(U_DRAIN, 15); b_(U_DISPOSE_KILL, 12); b_(U_ERASE_RANGE, 12); }
    if (f.autoun) { b_(U_HOOK_UNLINK, 20); b_(U_KILL, 20); b_(U_FILL, 15); }
    if (f.swapmove) { b_(U_SWAP, 20); b_(U_MOVE, 15); }
    int steps = (int)r.range(8, 60); bool fib = false;
    u32 hot = r.below(64);                                            // some runs concentrate on a few containers
    bool conc = r.chance(1, 3);
    for (int i = 0; i < steps; ++i) {
      Step s; s.op = i < 3 ? (u32)U_INSERT : w.pick(r);
      s.a = conc && r.chance(2, 3) ? hot + r.below(3) : r.below(64); s.b = r.below(4096); s.c = r.below(4096); s.d = r.below(4096);
      if (r.below(100) < (f.faults ? 40u : 8u)) { s.fk = r.chance(1, 2) ? (u32)F_CMP : r.chance(1, 3) ? (u32)F_PRIO : r.chance(1, 2) ? (u32)F_HASH : (u32)F_EQ; s.fn = r.range(1, 5); }
      fib |= s.op == U_PARALLEL || s.op == U_READERS;
      t.steps.push_back(s);
    }
    if (fib) { u32 k = r.chance(1, 4) ? 6 : 200, style = r.below(3); for (u32 i = 0; i < k; ++i) t.sched.push_back(r.below(8) | ((style == 0 ? 0 : style == 1 ? r.below(4) : r.below(40)) << 3)); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "multi", gen, run, multi_opname}; }
};
} // namespace sim
#define SIM_MULTI_CONFIG(CFG, NAME) static ::sim::Registrar reg_##CFG(::sim::MultiEngine<CFG>::entry(NAME));

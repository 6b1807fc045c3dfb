// Simulation of unordered_set / unordered_multiset (every option combination):
// three containers of one type, a shared pool of bucket arrays, a pool of
// elements, held iterators; the model is a set of ids per container.
#pragma once
#include "world.hpp"
#include <boost/move/utility_core.hpp>
#include <boost/intrusive/unordered_set.hpp>

namespace sim {
namespace bi = boost::intrusive;
enum HashOp {
  H_INSERT, H_INSERT_RANGE, H_COMMIT, H_ERASE_IT, H_ERASE_RANGE, H_ERASE_KEY, H_CLEAR, H_LOOKUP, H_BUCKETS, H_REHASH_NEW,
  H_REHASH_SAME, H_FULL_REHASH, H_INCR, H_INCR_BT, H_CLONE, H_SWAP, H_MOVE_ASSIGN, H_MOVE_CTOR, H_COMPARE, H_HOLD,
  H_ITERTO, H_DESTROY_ELEM, H_HOOK_UNLINK, H_MISUSE, H_RELOCATE, H_READERS, H_PARALLEL, H_REKEY, H_RECREATE, H_CTOR_RANGE,
  H_BULK, H_SUGGEST, H_HOOK_COPY, H_TRANSFER, H_INSERT_DUP, H_CYCLE, H_SWAP_NODES, H_NOPS
};
inline const char *hash_opname(u32 o) {
  static const char *n[] = {"insert", "insert(range)", "insert_check+commit", "erase(iterator)", "erase(range)", "erase(key)", "clear", "lookups", "bucket_api", "rehash(new buffer)",
    "rehash(same buffer)", "full_rehash", "incremental_rehash(bool)", "incremental_rehash(bucket_traits)", "clone_from", "swap", "move_assign", "move_construct", "compare", "hold_iterator",
    "iterator_to", "destroy_element", "hook_unlink", "misuse", "relocate", "concurrent_readers", "parallel_containers", "rekey_free", "destroy+recreate", "construct(range)",
    "bulk_insert", "suggested_bucket_count", "hook_copy", "erase+insert elsewhere", "insert equivalent", "incremental cycle", "swap_nodes"};
  return o < H_NOPS ? n[o] : "?";
}
// user hash: kind selects the distribution, grain the equivalence classes
inline size_t hash_val(int kind, int key, int grain) {
  size_t k = (size_t)(key / grain);
  switch (kind) {
  case 0: return k;
  case 1: return (size_t)mix(k, 77);
  case 2: return k % 3;
  case 3: return 5;
  case 4: return k * 0x100000001ull + 7;
  default: return k << 3;
  }
}
struct HashT {
  int kind, grain;
  HashT(int k = 0, int g = 1) : kind(k), grain(g) {}
  HashT(const HashT &) = default;
  HashT &operator=(const HashT &o) { fcopy(); kind = o.kind; grain = o.grain; return *this; }
  template <class A> size_t operator()(const A &a) const { fcall(F_HASH); return hash_val(kind, kk(a), grain); }
};
struct EqT {
  int grain;
  EqT(int g = 1) : grain(g) {}
  EqT(const EqT &) = default;
  EqT &operator=(const EqT &o) { fcopy(); grain = o.grain; return *this; }
  template <class A, class B> bool operator()(const A &a, const B &b) const { fcall(F_EQ); return kk(a) / grain == kk(b) / grain; }
};
struct HHashT {                                     // heterogeneous: a key type unrelated to the element
  int kind;
  size_t operator()(const HKey &k) const { fcall(F_HASH); return hash_val(kind, k.key, k.grain); }
};
struct HEqT {
  template <class B> bool operator()(const HKey &a, const B &b) const { fcall(F_EQ); return a.key / a.grain == kk(b) / a.grain; }
  template <class A> bool operator()(const A &a, const HKey &b) const { fcall(F_EQ); return kk(a) / b.grain == b.key / b.grain; }
};
// a bucket traits type written by a user
template <class BP> struct UserBucketTraits {
  BP first; unsigned short n; short pad;
  UserBucketTraits(BP p, size_t c) : first(p), n((unsigned short)c), pad(0) {}
  UserBucketTraits(const UserBucketTraits &o) : first(o.first), n(o.n), pad(0) {}
  UserBucketTraits(UserBucketTraits &&o) : first(o.first), n(o.n), pad(0) { o.first = BP(); o.n = 0; }   // see DESIGN.md: a moved-from traits object must give up the array
  UserBucketTraits &operator=(const UserBucketTraits &o) { first = o.first; n = o.n; return *this; }
  UserBucketTraits &operator=(UserBucketTraits &&o) { BP f = o.first; unsigned short c = o.n; o.first = BP(); o.n = 0; first = f; n = c; return *this; }
  BP bucket_begin() const { return first; }
  size_t bucket_count() const { return n; }
};

template <class Cfg> struct HashEngine {
  typedef typename Cfg::E E;
  typedef typename Cfg::C C;
  typedef typename C::iterator It;
  typedef typename C::const_iterator CIt;
  typedef typename C::local_iterator LIt;
  typedef typename C::const_local_iterator CLIt;
  typedef typename C::value_traits VT;
  typedef typename C::bucket_type Bucket;
  typedef typename C::bucket_ptr BP;
  typedef typename C::bucket_traits BT;
  typedef typename C::key_type Key;
  typedef typename C::node_traits NT;
  typedef typename C::size_type Sz;
  static const bool U = Cfg::unique;
  static const bool CT = C::constant_time_size, CACHE = C::cache_begin, STORE = C::store_hash, INC = C::incremental, POW2 = C::power_2_buckets,
                    LIN = C::linear_buckets, FMOD = C::fastmod_buckets, OPTM = C::optimize_multikey, STATEFUL = C::stateful_value_traits;
  static const bool HOOK = requires { typename E::hook_t; };       // otherwise: bare nodes
  static const int LM = VT::link_mode;
  static const bool SAFE = LM != bi::normal_link;
  static const bool AUTO = LM == bi::auto_unlink;
  static const bool RELOC = Cfg::reloc, ANY = Cfg::any;
  static const u32 OVER = (u32)C::bucket_overhead;

  enum { NBUF = 8, NHELD = 3 };
  u32 BUFCAP = 130;
  Pool<E> P;
  struct Model { vec<int> ids; int buf = 0; u32 bc = 1; u32 split = 1; int kind = 0, grain = 1; };
  Model m[3];
  size_t coff[3], tmpoff, hoff, taboff[2] = {0, 0}, boff[NBUF];
  int tt[3] = {0, 0, 0};              // stateful value traits: which side table each container was given
  int bufuser[NBUF];
  u32 maxbc = 64;
  const Trace *tr = nullptr; u32 si = 0;
  size_t schedpos = 0;
  int keyrange = 8;
  bool skipped = false;
  void skip() { skipped = true; }
  C &c(int i) { return *(C *)arena_at(coff[i]); }
  const C &cc(int i) { return c(i); }
  E &e(int i) { return P.e(i); }
  struct Held { It it; CIt cit; };
  bool hact[NHELD]; int hid[NHELD];
  Held &held(int k) { return *(Held *)arena_at(hoff + k * ((sizeof(Held) + 15) / 16 * 16)); }

  // ------------------------------------------------------------ bucket arrays
  Bucket *bufp(int b) { return (Bucket *)arena_at(boff[b]); }
  void bpoison(int b, u32 from, u32 to) { if (to > from) memset((void *)(bufp(b) + from), FILL_DEAD, (to - from) * sizeof(Bucket)); }
  void shadow_begin() {
    P.step_begin();
    for (int b = 0; b < NBUF; ++b) {
      shadow_set(boff[b], BUFCAP * sizeof(Bucket), SH_BUCKETS);
      if (bufuser[b] >= 0) shadow_set(boff[b], (m[bufuser[b]].bc + OVER) * sizeof(Bucket), SH_OK);
    }
  }
  BT bt(int b, u32 bc) { shadow_set(boff[b], (bc + OVER) * sizeof(Bucket), SH_OK); return BT(bi::pointer_traits<BP>::pointer_to(*bufp(b)), (size_t)bc + OVER); }
  int free_buf(u32 start) { for (int d = 0; d < NBUF; ++d) { int b = (int)((start + d) % NBUF); if (bufuser[b] < 0) return b; } return -1; }
  u32 legal_count(u32 x) {                       // a bucket count this configuration accepts
    x = P.N < 3000 ? 1 + x % maxbc : maxbc / 4 + 1 + x % (maxbc - maxbc / 4);   // (no endless buckets with thousands of elements)
    if (FMOD) { while (x > 1 && C::suggested_upper_bucket_count((Sz)x) > maxbc) x /= 2; return (u32)C::suggested_upper_bucket_count((Sz)x); }
    if (POW2) { u32 p = INC ? 2 : 1; while (p * 2 <= x) p *= 2; return p; }
    return x;
  }
  u32 initial_split(u32 bc) { return INC ? bc / 2 : bc; }
  void verify_bufs() {
    for (int b = 0; b < NBUF; ++b) {
      const unsigned char *p = (const unsigned char *)bufp(b);
      size_t from = bufuser[b] < 0 ? 0 : (m[bufuser[b]].bc + OVER) * sizeof(Bucket), to = BUFCAP * sizeof(Bucket);
      if (p[from] == FILL_DEAD && (to - from < 2 || !memcmp(p + from, p + from + 1, to - from - 1))) continue;
      for (size_t k = from; k < to; ++k) if (p[k] != FILL_DEAD) fail("bucket-array", "%s was written (byte %zu of array %d)", from ? "memory behind the bucket array in use" : "a bucket array that no container uses", k, b);
    }
  }
  auto *tab(int k) { if constexpr (STATEFUL) return (typename VT::table *)arena_at(taboff[k]); else return (char *)nullptr; }
  auto *table(int ci) { return tab(tt[ci]); }
  bool same_traits(int a, int b) { return tt[a] == tt[b]; }
  C *construct(int ci, int buf, u32 bc, int kind, int grain) {
    bpoison(buf, 0, BUFCAP); bufuser[buf] = ci;
    memset(bufp(buf), 0x5C, (bc + OVER) * sizeof(Bucket));
    Model &M = m[ci]; M.ids.clear(); M.buf = buf; M.bc = bc; M.split = initial_split(bc); M.kind = kind; M.grain = grain;
    void *w = arena_at(coff[ci]);
    if constexpr (STATEFUL) return new (w) C(bt(buf, bc), HashT(kind, grain), EqT(grain), VT(table(ci)));
    else return new (w) C(bt(buf, bc), HashT(kind, grain), EqT(grain));
  }
  void start(const Trace &t) {
    tr = &t;
    int n = (int)t.param(0, 12); keyrange = (int)t.param(1, 8); maxbc = t.param(2, 64); BUFCAP = std::max(130u, 2 * maxbc + 2);
    P.setup(n);
    if constexpr (STATEFUL) {
      bool two = mix(t.seed, 99) % 4 == 0;
      for (int k = 0; k < 1 + two; ++k) {
        taboff[k] = arena_alloc(sizeof(typename VT::table), 16);
        new (arena_at(taboff[k])) typename VT::table;
        for (int i = 0; i < n + 2; ++i) { NodeAlgo::init(tab(k)->nodes + i); tab(k)->elems[i] = i < n ? P.ptr(i) : nullptr; }
      }
      if (two) { tt[1] = 1; tt[2] = (int)(mix(t.seed, 98) & 1); SIM_PROBE("containers with different stateful traits"); }
    }
    for (int b = 0; b < NBUF; ++b) { boff[b] = arena_alloc(BUFCAP * sizeof(Bucket), 16); bufuser[b] = -1; bpoison(b, 0, BUFCAP); }
    for (int i = 0; i < 3; ++i) coff[i] = arena_alloc(sizeof(C), 16);
    tmpoff = arena_alloc(sizeof(C), 16);
    hoff = arena_alloc(NHELD * ((sizeof(Held) + 15) / 16 * 16), 16);
    for (int k = 0; k < NHELD; ++k) { new (&held(k)) Held; hact[k] = false; }
    Rng r(mix(t.seed, 4343));
    for (int i = 0; i < n; ++i) P.create(i, (int)r.below(keyrange), (int)r.below(1000));
    int kind = (int)t.param(3, 0), grain = (int)t.param(4, 1); bool same = t.param(5, 1);
    for (int i = 0; i < 3; ++i) {
      construct(i, i, legal_count(r.below(4096)), same ? kind : (int)r.below(6), same ? grain : (r.below(3) ? 1 : 3));
    }
  }
  struct NodeAlgo { template <class N> static void init(N *n) { NT::set_next(n, nullptr); if constexpr (OPTM) bi::unordered_group_adapter<NT>::set_next(n, nullptr); } };
  bool linked(int id) {
    if constexpr (STATEFUL) return NT::get_next(tab(0)->nodes + id) != nullptr || (taboff[1] && NT::get_next(tab(1)->nodes + id) != nullptr);
    else if constexpr (SAFE && !HOOK) return NT::get_next(VT::to_node_ptr(e(id))) != nullptr;
    else if constexpr (SAFE) return E::hook(e(id)).is_linked();
    else return P.owner[id] >= 0;
  }
  // a linear bucket cannot tell for the last node of its chain
  bool unknowable(int id) {
    if (!LIN || P.owner[id] < 0) return false;
    Quiet q; C &x = c(P.owner[id]);
    if constexpr (STATEFUL) return NT::get_next(table(P.owner[id])->nodes + id) == nullptr;
    else { LIt l = x.local_iterator_to(e(id)); ++l; size_t b = bucket_of(P.owner[id], id); return l == x.end((Sz)b); }
  }
  // ------------------------------------------------------------ model
  int cls(int ci, int key) { return key / m[ci].grain; }
  bool same_cls(int ci, int a, int b) { return cls(ci, a) == cls(ci, b); }
  void put(int ci, int id) { m[ci].ids.push_back(id); P.owner[id] = ci; }
  void forget_unlinked() { for (int k = 0; k < NHELD; ++k) if (hact[k] && P.owner[hid[k]] < 0) hact[k] = false; }
  void drop_held(int id) { for (int k = 0; k < NHELD; ++k) if (hact[k] && hid[k] == id) hact[k] = false; }
  void drop_held_of(int ci) { for (int k = 0; k < NHELD; ++k) if (hact[k] && P.owner[hid[k]] == ci) hact[k] = false; }
  void take(int ci, int id, bool dead = false) { auto &v = m[ci].ids; v.erase(std::find(v.begin(), v.end(), id)); P.owner[id] = dead ? DEAD : FREE; drop_held(id); }
  vec<int> of_key(int ci, int key) { vec<int> v; for (int id : m[ci].ids) if (same_cls(ci, P.key[id], key)) v.push_back(id); return sorted(v); }
  bool has_key(int ci, int key) { for (int id : m[ci].ids) if (same_cls(ci, P.key[id], key)) return true; return false; }
  int check_it(int ci, CIt it, const char *what) {
    Quiet q;
    if (it == cc(ci).cend()) return -1;
    int id = P.id_fast(&*it);
    if (id < 0 || P.owner[id] != ci) fail("bad-iterator", "%s returned an iterator to %s", what, id < 0 ? "no element" : "an element that is not in the container");
    return id;
  }
  vec<int> order(int ci) {                 // current iteration order
    Quiet q; vec<int> v; const C &x = cc(ci);
    for (CIt it = x.cbegin(); it != x.cend(); ++it) {
      int id = P.id_fast(&*it);
      if (id < 0) fail("contents", "container %d iterates over something that is not an element", ci);
      if (v.size() > m[ci].ids.size() + (size_t)P.N) fail("contents", "iteration over container %d does not end", ci);
      v.push_back(id);
    }
    return v;
  }
  It it_at(int ci, int i) { Quiet q; It it = c(ci).begin(); while (i-- > 0) ++it; return it; }
  CIt cit_at(int ci, int i) { return CIt(it_at(ci, i)); }
  size_t bucket_of(int ci, int id) { Quiet q; size_t b; with_key(P.key[id], [&](const Key &k) { b = cc(ci).bucket(k); }); return b; }
  template <class F> void with_key(int k, F f) {
    if constexpr (std::is_same<Key, int>::value) f(k);
    else { alignas(E) char buf[sizeof(E)]; E *p = new (buf) E; p->key = k; struct D { E *p; ~D() { p->~E(); } } d{p}; f(*(const E *)p); }
  }
  // ------------------------------------------------------------ disposer / cloner
  struct Dctx { HashEngine *w; int ci; int action; vec<int> got; };
  struct Disposer { Dctx *d; template <class Ptr> void operator()(Ptr p) const { d->w->on_dispose(*d, to_raw(p)); } };
  void on_dispose(Dctx &d, E *p) {
    int id = P.id_of(p);
    if (id < 0) fail("dispose", "disposer called with a pointer to %s", id == -2 ? "an already destroyed element" : "something that is not an element");
    if (d.got.size() < 512) for (int x : d.got) if (x == id) fail("dispose", "disposer called twice for element %d", id);
    d.got.push_back(id);
    if constexpr (SAFE) if (linked(id)) fail("dispose", "element %d handed to the disposer while still linked", id);
    if (d.action == 1) P.kill(id);
  }
  void settle(Dctx &d, const vec<int> &want, const char *what) { expect_ids(sorted(d.got), sorted(want), "dispose", what); for (int id : d.got) drop_held(id); }
  struct Cctx { HashEngine *w; vec<int> src, dst; int cur = 0; };
  E *do_clone(Cctx &x, const E &s) {
    int id = P.id_of(&s);
    if (id < 0) fail("clone", "cloner called with something that is not an element");
    fcall(F_CLONE);
    int n = -1;
    for (int i = x.cur; i < P.N; ++i) if (P.pick(i) && !P.tmpmark[i]) { n = i; break; }
    if (n >= 0) x.cur = n + 1;
    if (n < 0) fail("clone", "cloner called more often than there are source elements");
    P.tmpmark[n] = 1;
    P.rekey(n, P.key[id], P.prio[id]);
    x.src.push_back(id); x.dst.push_back(n);
    return P.ptr(n);
  }
  struct Cloner { Cctx *x; E *operator()(const E &s) const { return x->w->do_clone(*x, s); } };
  struct NCloner { Cctx *x; E *operator()(E &s) const { return x->w->do_clone(*x, s); } };
  vec<int> free_list(u32 start, int k) {
    vec<int> v;
    for (int d = 0; d < P.N && (int)v.size() < k; ++d) { int i = (int)((start + d) % P.N); if (P.pick(i)) v.push_back(i); }
    return v;
  }
  vec<E *> ptrs(const vec<int> &v) { vec<E *> r; for (int i : v) r.push_back(P.ptr(i)); return r; }

  // ------------------------------------------------------------ oracle
  void check_one(int ci) {
    C &x = c(ci); const C &cx = x; Model &M = m[ci];
    size_t n = M.ids.size();
    vec<int> ord = order(ci);
    expect_ids(sorted(ord), sorted(M.ids), "contents", "elements visited by iteration");
    for (size_t i = 1; i < ord.size(); ++i) if (!same_cls(ci, P.key[ord[i]], P.key[ord[i - 1]])) {
      for (size_t j = i + 1; j < ord.size(); ++j) if (same_cls(ci, P.key[ord[j]], P.key[ord[i - 1]])) fail("grouping", "container %d: equivalent elements %d and %d are not adjacent in iteration order %s", ci, ord[i - 1], ord[j], fmt_ids(ord).c_str());
    }
    if (cx.size() != n) fail("size", "container %d: size() is %zu, expected %zu", ci, (size_t)cx.size(), n);
    if (cx.empty() != (n == 0)) fail("size", "container %d: empty() is %d with %zu elements", ci, (int)cx.empty(), n);
    check_ends(x, n ? P.ptr(ord[0]) : (E *)nullptr, n ? P.ptr(ord[n - 1]) : (E *)nullptr, ci);
    if (cx.bucket_count() != M.bc) fail("bucket-count", "container %d: bucket_count() is %zu, expected %u", ci, (size_t)cx.bucket_count(), M.bc);
    if (to_raw(cx.bucket_pointer()) != bufp(M.buf)) fail("bucket-count", "container %d does not use the bucket array it was given", ci);
    if constexpr (INC) if (cx.split_count() != M.split) fail("split", "container %d: split_count() is %zu, expected %u", ci, (size_t)cx.split_count(), M.split);
    if (cx.hash_function().kind != M.kind || cx.hash_function().grain != M.grain || cx.key_eq().grain != M.grain) fail("functors", "container %d does not hold the hash / equality functors it should", ci);
    // every bucket: local iteration, bucket_size, membership
    size_t total = 0;
    for (u32 b = 0; b < M.bc; ++b) {
      size_t k = 0;
      bool none = cx.cbegin((Sz)b) == cx.cend((Sz)b);
      if (cx.begin((Sz)b) != cx.cbegin((Sz)b) || cx.end((Sz)b) != cx.cend((Sz)b) || (x.begin((Sz)b) == x.end((Sz)b)) != none || (!none && &*x.begin((Sz)b) != &*cx.cbegin((Sz)b))) fail("ends", "container %d: local begin()/end() overloads of bucket %u disagree", ci, b);
      for (CLIt l = cx.cbegin((Sz)b); l != cx.cend((Sz)b); ++l, ++k) {
        int id = P.id_fast(&*l);
        if (id < 0 || P.owner[id] != ci) fail("buckets", "container %d: bucket %u holds something that is not an element of it", ci, b);
        if (bucket_of(ci, id) != b) fail("buckets", "container %d: element %d (key %d) sits in bucket %u, but bucket(key) is %zu", ci, id, P.key[id], b, bucket_of(ci, id));
        if (k > n) fail("buckets", "container %d: bucket %u does not end", ci, b);
      }
      if (cx.bucket_size((Sz)b) != k) fail("buckets", "container %d: bucket_size(%u) is %zu, expected %zu", ci, b, (size_t)cx.bucket_size((Sz)b), k);
      total += k;
    }
    if (total != n) fail("buckets", "container %d: buckets hold %zu of %zu elements", ci, total, n);
    if constexpr (INC) for (u32 b = M.split; b < M.bc; ++b) if (cx.bucket_size((Sz)b)) fail("split", "container %d: bucket %u behind the split point is not empty", ci, b);
    cx.check();
    u64 h = mix(hash_str(tr->cfg.c_str()), ci); h = mix(h, M.bc * 1000 + M.split); for (int id : ord) h = mix(h, (u64)P.key[id] + 1); g.states.add(h);
    for (int id : ord) lognum(id * 4 + ci);
    lognum(999);
  }
  void probe_keys(int ci, u32 salt) {               // lookups of one present and one random key
    Model &M = m[ci];
    if (!M.ids.empty()) check_key(ci, P.key[M.ids[salt % M.ids.size()]]);
    check_key(ci, (int)(mix(salt, 5) % (u32)keyrange));
  }
  void check_key(int ci, int k) {
    const C &cx = cc(ci); C &x = c(ci);
    vec<int> want = of_key(ci, k);
    with_key(k, [&](const Key &key) {
      if (cx.count(key) != want.size()) fail("lookup", "container %d: count(%d) is %zu, expected %zu", ci, k, (size_t)cx.count(key), want.size());
      int id = check_it(ci, cx.find(key), "find");
      if ((id >= 0) != !want.empty() || (id >= 0 && !same_cls(ci, P.key[id], k))) fail("lookup", "container %d: find(%d) is wrong", ci, k);
      vec<int> got; auto r = x.equal_range(key); auto cr = cx.equal_range(key);
      if (CIt(r.first) != cr.first || CIt(r.second) != cr.second) fail("lookup", "container %d: const and mutable equal_range(%d) differ", ci, k);
      for (It i = r.first; i != r.second; ++i) { int q = check_it(ci, i, "equal_range"); if (q < 0 || got.size() > want.size()) fail("lookup", "container %d: equal_range(%d) runs past its end", ci, k); got.push_back(q); }
      expect_ids(sorted(got), want, "lookup", "elements in equal_range");
      if (!want.empty()) {                         // the end of the range continues the iteration
        vec<int> ord = order(ci); size_t last = 0;
        for (size_t i = 0; i < ord.size(); ++i) if (same_cls(ci, P.key[ord[i]], k)) last = i;
        size_t i = last + 1; It it = r.second;
        for (; it != x.end() && i < ord.size(); ++it, ++i) if (check_it(ci, it, "++ of equal_range().second") != ord[i]) fail("lookup", "container %d: equal_range(%d).second does not continue the iteration", ci, k);
        if (i != ord.size() || it != x.end()) fail("lookup", "container %d: equal_range(%d).second does not continue the iteration", ci, k);
      }
    });
  }
  void oracle() {
    Quiet q;
    P.verify_data();
    verify_bufs();
    for (int i = 0; i < 3; ++i) { check_one(i); probe_keys(i, si * 7 + i); }
    if constexpr (SAFE) for (int i = 0; i < P.N; ++i) if (P.owner[i] != DEAD) {
      bool l = linked(i), w = P.owner[i] >= 0;
      if (l != w && !(LIN && w && unknowable(i))) fail("is_linked", "element %d: is_linked() is %d but it is %s", i, (int)l, w ? "in a container" : "in no container");
    }
    for (int k = 0; k < NHELD; ++k) if (hact[k]) {
      int id = hid[k], ci = P.owner[id];
      if (ci < 0) { hact[k] = false; continue; }
      Held &H = held(k);
      if (&*H.it != P.ptr(id) || &*H.cit != P.ptr(id)) fail("held-iterator", "an iterator taken earlier no longer denotes element %d", id);
      vec<int> ord = order(ci); size_t j = std::find(ord.begin(), ord.end(), id) - ord.begin();
      It nx = H.it; ++nx;
      int nid = check_it(ci, nx, "++ of a held iterator");
      if (nid != (j + 1 < ord.size() ? ord[j + 1] : -1)) fail("held-iterator", "++ of an iterator taken earlier goes to element %d instead of %d", nid, j + 1 < ord.size() ? ord[j + 1] : -1);
    }
  }
  // adopt the contents after an exception in an operation with the basic guarantee
  void adopt(int ci, const vec<int> &must, const vec<int> &may, const char *what) {
    vec<int> v = sorted(order(ci));
    for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) fail("contents", "%s threw and element %d is in the container twice", what, v[i]);
    for (int id : must) if (!std::binary_search(v.begin(), v.end(), id)) fail("lost-element", "%s threw and element %d was lost", what, id);
    vec<int> all = must; all.insert(all.end(), may.begin(), may.end());
    for (int id : v) if (std::find(all.begin(), all.end(), id) == all.end()) fail("contents", "%s threw and the container holds a foreign element %d", what, id);
    for (int id : all) if (P.owner[id] == ci) P.owner[id] = FREE;
    m[ci].ids = v; for (int id : v) P.owner[id] = ci;
    for (int id : all) if (P.owner[id] == FREE) drop_held(id);
  }

  // ------------------------------------------------------------ operations
  void did_insert(int ci, int id, It r, bool ins, const char *what) {
    int rid = check_raw(ci, r, what);
    if (U && has_key(ci, P.key[id])) {
      if (ins) fail("wrong-result", "%s inserted an element although an equivalent one is present", what);
      if (rid < 0 || rid == id || P.owner[rid] != ci || !same_cls(ci, P.key[rid], P.key[id])) fail("wrong-result", "%s did not return the equivalent element", what);
    } else {
      if (!ins || rid != id) fail("wrong-result", "%s did not insert element %d", what, id);
      put(ci, id);
    }
  }
  int check_raw(int ci, It it, const char *what) { Quiet q; if (it == c(ci).end()) return -1; int id = P.id_fast(&*it); if (id < 0) fail("bad-iterator", "%s returned an iterator to no element", what); return id; }
  void op_insert(const Step &s, int ci, bool dup) {
    int id = P.take_free(s.b); if (id < 0) return skip();
    if (dup && !m[ci].ids.empty()) P.rekey(id, P.key[m[ci].ids[s.c % m[ci].ids.size()]], P.prio[id]);
    It r; bool ins = true;
    Arm arm(s, SIM_BIT(F_HASH) | SIM_BIT(F_EQ));
    if constexpr (requires { requires C::raw_multi; }) if ((s.d & 3) == 1) {        // hashtable offers unique insertion besides equal keys
      bool exp = !has_key(ci, P.key[id]);
      bool threw = attempt([&] { auto p = c(ci).insert_unique(e(id)); r = p.first; ins = p.second; });
      if (threw) { SIM_PROBE("insert threw"); return; }
      SIM_PROBE("insert_unique into a table with equivalent elements");
      if (ins != exp) fail("wrong-result", "insert_unique of key %d reported %d, expected %d", P.key[id], (int)ins, (int)exp);
      if (exp) put(ci, id);
      int rid = check_it(ci, r, "insert_unique");
      if (exp ? rid != id : rid < 0 || !same_cls(ci, P.key[rid], P.key[id])) fail("wrong-result", "insert_unique returned the wrong element");
      return;
    }
    bool threw = attempt([&] { if constexpr (U) { auto p = c(ci).insert(e(id)); r = p.first; ins = p.second; } else r = c(ci).insert(e(id)); });
    if (threw) { SIM_PROBE("insert threw"); return; }
    did_insert(ci, id, r, ins, "insert");
  }
  void op_insert_range(const Step &s, int ci) {
    auto ids = free_list(s.b, (int)(s.d % 7)); auto v = ptrs(ids);
    vec<int> old = m[ci].ids;
    Arm arm(s, SIM_BIT(F_HASH) | SIM_BIT(F_EQ));
    bool threw = attempt([&] { c(ci).insert(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size())); });
    if (threw) { SIM_PROBE("insert(range) threw"); adopt(ci, old, ids, "insert(range)"); return; }
    for (int id : ids) if (!U || !has_key(ci, P.key[id])) put(ci, id);
  }
  void op_commit(const Step &s, int ci) {
    if constexpr (U) {
      int id = P.take_free(s.b); if (id < 0) return skip();
      typename C::insert_commit_data cd; std::pair<It, bool> r; int k = P.key[id];
      bool threw;
      {
        Arm arm(s, SIM_BIT(F_HASH) | SIM_BIT(F_EQ));
        threw = attempt([&] {
          if (s.d % 3 == 0) with_key(k, [&](const Key &key) { r = c(ci).insert_check(key, cd); });
          else if (s.d % 3 == 1) r = c(ci).insert_check(HKey{k, m[ci].grain}, HHashT{m[ci].kind}, HEqT(), cd);
          else r = c(ci).insert_check(k, c(ci).hash_function(), c(ci).key_eq(), cd);
        });
      }
      if (threw) { SIM_PROBE("insert_check threw"); return; }
      int rid = r.first == c(ci).end() ? -1 : check_it(ci, r.first, "insert_check");
      if (has_key(ci, k)) {
        if (r.second || rid < 0 || !same_cls(ci, P.key[rid], k)) fail("wrong-result", "insert_check did not find the equivalent element");
        SIM_PROBE("insert_check found an equivalent");
        return;
      }
      if (!r.second) fail("wrong-result", "insert_check refused a new key");
      { Quiet q; check_key(ci, k); }
      bool fast = s.d & 8;
      if (!fast && (s.d & 16) && !INC) { u32 bc = legal_count(s.c); int b = free_buf(s.c); if (b >= 0) { do_rehash(ci, b, bc); SIM_PROBE("rehash between insert_check and insert_commit"); } }
      It it; { NoFunctor nf("insert_commit"); if (fast) it = c(ci).insert_fast_commit(e(id), cd); else it = c(ci).insert_commit(e(id), cd); }
      put(ci, id);
      if (check_it(ci, it, "insert_commit") != id) fail("wrong-result", "insert_commit returned an iterator to another element");
    } else skip();
  }
  void op_erase_it(const Step &s, int ci) {
    int n = (int)m[ci].ids.size(); if (!n) return skip();
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 2), {}};
    vec<int> ord = order(ci); int i = (int)(s.b % n), id = ord[i];
    CIt p;
    { Quiet q; if (s.d & 8) p = c(ci).iterator_to(e(id)); else if (s.d & 16) with_key(P.key[id], [&](const Key &k) { p = cc(ci).find(k); id = P.id_fast(&*p); }); else p = cit_at(ci, i); }
    { NoFunctor nf("erase(iterator)"); if (LIN || STORE || true) { if (disp) c(ci).erase_and_dispose(p, Disposer{&d}); else c(ci).erase(p); } }
    take(ci, id, disp && d.action == 1);
    if (disp) settle(d, {id}, "erase_and_dispose(iterator)");
  }
  void op_erase_range(const Step &s, int ci) {
    int n = (int)m[ci].ids.size();
    int i = (int)(s.b % (n + 1)), j = (int)(s.c % (n + 1)); if (i > j) std::swap(i, j);
    if (s.d % 16 == 9) { i = 0; j = n; }
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 2), {}};
    vec<int> ord = order(ci), gone(ord.begin() + i, ord.begin() + j);
    CIt b = cit_at(ci, i), en = cit_at(ci, j);
    { NoFunctor nf("erase(range)"); if (disp) c(ci).erase_and_dispose(b, en, Disposer{&d}); else c(ci).erase(b, en); }
    for (int id : gone) take(ci, id, disp && d.action == 1);
    if (disp) settle(d, gone, "erase_and_dispose(range)");
  }
  void op_erase_key(const Step &s, int ci) {
    int k = m[ci].ids.empty() || s.c % 5 == 0 ? (int)(s.b % keyrange) : P.key[m[ci].ids[s.b % m[ci].ids.size()]];
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 2), {}};
    vec<int> gone = of_key(ci, k), rest; for (int id : m[ci].ids) if (std::find(gone.begin(), gone.end(), id) == gone.end()) rest.push_back(id);
    size_t r = 0; bool threw;
    {
      Arm arm(s, SIM_BIT(F_HASH) | SIM_BIT(F_EQ));
      threw = attempt([&] {
        switch ((s.d >> 2) % 3) {
        case 0: with_key(k, [&](const Key &key) { r = disp ? c(ci).erase_and_dispose(key, Disposer{&d}) : c(ci).erase(key); }); break;
        case 1: { HKey h{k, m[ci].grain}; r = disp ? c(ci).erase_and_dispose(h, HHashT{m[ci].kind}, HEqT(), Disposer{&d}) : c(ci).erase(h, HHashT{m[ci].kind}, HEqT()); break; }
        default: r = disp ? c(ci).erase_and_dispose(k, c(ci).hash_function(), c(ci).key_eq(), Disposer{&d}) : c(ci).erase(k, c(ci).hash_function(), c(ci).key_eq());
        }
      });
    }
    if (threw) {
      SIM_PROBE("erase(key) threw");
      vec<int> now_ = order(ci), lost;
      for (int id : gone) if (std::find(now_.begin(), now_.end(), id) == now_.end()) lost.push_back(id);
      for (int id : lost) take(ci, id, disp && d.action == 1);
      if (disp) settle(d, lost, "elements disposed before the exception");
      return;
    }
    if (r != gone.size()) fail("wrong-result", "erase(key) returned %zu, expected %zu", r, gone.size());
    for (int id : gone) take(ci, id, disp && d.action == 1);
    if (disp) settle(d, gone, "erase_and_dispose(key)");
  }
  void op_clear(const Step &s, int ci) {
    bool disp = s.d & 1; Dctx d{this, ci, (int)((s.d >> 1) % 2), {}};
    vec<int> gone = m[ci].ids;
    { NoFunctor nf("clear"); if (disp) c(ci).clear_and_dispose(Disposer{&d}); else c(ci).clear(); }
    for (int id : gone) take(ci, id, disp && d.action == 1);
    if (disp) settle(d, gone, "clear_and_dispose");
  }
  void op_lookup(const Step &s, int ci) {
    int k = m[ci].ids.empty() || s.c % 3 == 0 ? (int)(s.b % keyrange) : P.key[m[ci].ids[s.b % m[ci].ids.size()]];
    vec<int> want = of_key(ci, k); C &x = c(ci); const C &cx = x; Model &M = m[ci];
    Arm arm(s, SIM_BIT(F_HASH) | SIM_BIT(F_EQ));
    bool threw = attempt([&] {
      HKey h{k, M.grain}; size_t cnt = 0; CIt f; std::pair<CIt, CIt> r;
      switch (s.d % 5) {
      case 0: with_key(k, [&](const Key &key) { cnt = cx.count(key); f = x.find(key); auto q = x.equal_range(key); r = std::pair<CIt, CIt>(q.first, q.second); }); break;
      case 1: cnt = cx.count(h, HHashT{M.kind}, HEqT()); f = cx.find(h, HHashT{M.kind}, HEqT()); r = cx.equal_range(h, HHashT{M.kind}, HEqT()); break;
      case 2: { cnt = x.count(h, HHashT{M.kind}, HEqT()); f = x.find(h, HHashT{M.kind}, HEqT()); auto q = x.equal_range(h, HHashT{M.kind}, HEqT()); r = std::pair<CIt, CIt>(q.first, q.second); break; }
      case 3: cnt = cx.count(k, cx.hash_function(), cx.key_eq()); f = cx.find(k, cx.hash_function(), cx.key_eq()); r = cx.equal_range(k, cx.hash_function(), cx.key_eq()); break;
      default: with_key(k, [&](const Key &key) { cnt = cx.count(key); f = cx.find(key); r = cx.equal_range(key); });
      }
      Quiet q;
      if (cnt != want.size()) fail("lookup", "count(%d) is %zu, expected %zu", k, cnt, want.size());
      int id = check_it(ci, f, "find"); if ((id >= 0) != !want.empty() || (id >= 0 && !same_cls(ci, P.key[id], k))) fail("lookup", "find(%d) is wrong", k);
      vec<int> got; for (CIt i = r.first; i != r.second; ++i) { got.push_back(check_it(ci, i, "equal_range")); if (got.back() < 0 || got.size() > want.size()) fail("lookup", "equal_range(%d) is wrong", k); }
      expect_ids(sorted(got), want, "lookup", "elements in equal_range");
    });
    if (threw) SIM_PROBE("lookup threw");
  }
  void op_buckets(const Step &s, int ci) {
    const C &cx = cc(ci); Model &M = m[ci];
    int k = (int)(s.b % keyrange); size_t b = 0, b2 = 0;
    Arm arm(s, SIM_BIT(F_HASH));
    bool threw = attempt([&] { with_key(k, [&](const Key &key) { b = cx.bucket(key); }); b2 = cx.bucket(HKey{k, M.grain}, HHashT{M.kind}); });
    if (threw) return;
    if (b != b2 || b >= M.bc) fail("buckets", "bucket(%d) is %zu / %zu of %u buckets", k, b, b2, M.bc);
    Quiet q; vec<int> want = of_key(ci, k), got;
    for (LIt l = c(ci).begin((Sz)b); l != c(ci).end((Sz)b); ++l) { int id = P.id_fast(&*l); if (id >= 0 && same_cls(ci, P.key[id], k)) got.push_back(id); }
    expect_ids(sorted(got), want, "buckets", "elements of a key in bucket(key)");
  }
  // ------------------------------------------------------------ rehash
  void after_rehash(int ci, int nb, u32 bc) {
    Model &M = m[ci];
    if (nb != M.buf) { bufuser[M.buf] = -1; bpoison(M.buf, 0, BUFCAP); bufuser[nb] = ci; M.buf = nb; }
    M.bc = bc;
    bpoison(nb, bc + OVER, BUFCAP);
    drop_held_of(ci);
  }
  void prepare(int nb, u32 from, u32 to) { memset((void *)(bufp(nb) + from), 0x5C, (to - from) * sizeof(Bucket)); }
  void do_rehash(int ci, int nb, u32 bc) {
    if (nb == m[ci].buf) { if (bc + OVER > m[ci].bc + OVER) prepare(nb, m[ci].bc + OVER, bc + OVER); } else { bufuser[nb] = ci; prepare(nb, 0, bc + OVER); }
    c(ci).rehash(bt(nb, bc));
    after_rehash(ci, nb, bc); m[ci].split = bc;
  }
  void op_rehash(const Step &s, int ci, bool same) {
    Model &M = m[ci]; u32 bc = legal_count(s.b);
    if (s.d % 4 == 1 && !FMOD && M.bc % 2 == 0 && M.bc > 2) bc = M.bc / 2;
    if (s.d % 4 == 2 && !FMOD && M.bc * 2 <= maxbc) bc = M.bc * 2;
    int nb = same ? M.buf : free_buf(s.c); if (nb < 0) return skip();
    vec<int> old = M.ids;
    if (same) { if (bc > M.bc) prepare(nb, M.bc + OVER, bc + OVER); } else prepare(nb, 0, bc + OVER);
    int before = bufuser[nb]; u32 oldbc = M.bc;
    bool threw;
    { if (STORE) g.nofunctor = "rehash with stored hashes";
      Arm arm(s, STORE ? 0 : SIM_BIT(F_HASH));
      threw = attempt([&] { c(ci).rehash(bt(nb, bc)); }); g.nofunctor = nullptr; }
    if (threw) {
      SIM_PROBE("rehash threw"); if (same) SIM_PROBE("rehash in place threw");
      if (same) bpoison(nb, oldbc + OVER, BUFCAP); else { bufuser[nb] = before; bpoison(nb, 0, BUFCAP); }
      if constexpr (INC) M.split = (u32)cc(ci).split_count();
      adopt(ci, {}, old, "rehash");
      drop_held_of(ci);
      return;
    }
    after_rehash(ci, nb, bc); M.split = bc;
    if (bc > oldbc) SIM_PROBE("rehash grew"); else if (bc < oldbc) SIM_PROBE("rehash shrank");
  }
  void op_full_rehash(const Step &s, int ci) {
    Model &M = m[ci];
    // change the keys of all elements: every class k moves to another class, classes stay distinct
    int mul = s.b % 3 == 0 ? 1 : 1, add = (int)(s.c % 5) * M.grain;
    (void)mul;
    if (s.d & 1) for (int id : M.ids) P.rekey(id, P.key[id] + add, P.prio[id]);
    vec<int> old = M.ids; bool threw;
    { Arm arm(s, SIM_BIT(F_HASH)); threw = attempt([&] { c(ci).full_rehash(); }); }
    drop_held_of(ci);
    if (threw) {
      SIM_PROBE("full_rehash threw");
      if constexpr (INC) M.split = (u32)cc(ci).split_count();
      adopt(ci, {}, old, "full_rehash");
      if (!M.ids.empty()) SIM_PROBE("full_rehash threw and kept elements");
      return;
    }
    M.split = M.bc;
  }
  void op_incr(const Step &s, int ci) {
    if constexpr (INC) {
      Model &M = m[ci]; bool grow = s.b & 1; vec<int> old = M.ids; bool r = false, threw;
      { Arm arm(s, STORE ? 0 : SIM_BIT(F_HASH)); threw = attempt([&] { r = grow && (s.d & 1) ? c(ci).incremental_rehash() : c(ci).incremental_rehash(grow); }); }
      drop_held_of(ci);
      if (threw) { SIM_PROBE("incremental_rehash threw"); adopt(ci, old, {}, "incremental_rehash"); return; }
      bool want = grow ? M.split < M.bc : M.split > M.bc / 2;
      if (r != want) fail("wrong-result", "incremental_rehash(%d) returned %d at split %u of %u", (int)grow, (int)r, M.split, M.bc);
      if (r) { if (grow) ++M.split; else --M.split; SIM_PROBE("incremental rehash step"); }
    } else skip();
  }
  void op_incr_bt(const Step &s, int ci) {
    if constexpr (INC) {
      Model &M = m[ci]; bool same = s.c & 1;
      u32 bc = s.b % 8 == 7 ? legal_count(s.d) : s.b & 1 ? M.bc * 2 : M.bc / 2;
      if (bc < 2 || bc > maxbc) return skip();
      int nb = same ? M.buf : free_buf(s.d); if (nb < 0) return skip();
      bool want = bc == M.bc * 2 ? M.split >= M.bc : bc * 2 == M.bc ? M.split <= bc : false;
      if (same) { if (bc > M.bc) prepare(nb, M.bc + OVER, bc + OVER); } else prepare(nb, 0, bc + OVER);
      bool r; { NoFunctor nf("incremental_rehash(bucket_traits)"); r = c(ci).incremental_rehash(bt(nb, bc)); }
      if (r != want) fail("wrong-result", "incremental_rehash(%u buckets) returned %d at split %u of %u", bc, (int)r, M.split, M.bc);
      if (r) { after_rehash(ci, nb, bc); SIM_PROBE("incremental bucket replacement"); }
      else if (same) bpoison(nb, M.bc + OVER, BUFCAP); else bpoison(nb, 0, BUFCAP);
      drop_held_of(ci);
    } else skip();
  }
  // the documented cycle: grow step by step, replace the array when done, and back
  void op_cycle(const Step &s, int ci) {
    if constexpr (INC) {
      Model &M = m[ci]; int rounds = 1 + (int)(s.b % 6);
      for (int i = 0; i < rounds; ++i) {
        bool grow = (s.c >> i) & 1;
        if (grow) {
          if (M.split < M.bc) { if (!c(ci).incremental_rehash(true)) fail("wrong-result", "incremental_rehash(true) did nothing"); ++M.split; }
          else if (M.bc * 2 <= maxbc) { bool same = (s.d >> i) & 1; int nb = same ? M.buf : free_buf(s.d); if (nb < 0) break; if (same) prepare(nb, M.bc + OVER, M.bc * 2 + OVER); else prepare(nb, 0, M.bc * 2 + OVER); u32 bc = M.bc * 2; if (!c(ci).incremental_rehash(bt(nb, bc))) fail("wrong-result", "the bucket array could not be doubled"); after_rehash(ci, nb, bc); }
        } else {
          if (M.split > M.bc / 2) { if (!c(ci).incremental_rehash(false)) fail("wrong-result", "incremental_rehash(false) did nothing"); --M.split; }
          else if (M.bc > 4) { bool same = (s.d >> i) & 1; int nb = same ? M.buf : free_buf(s.d); if (nb < 0) break; if (!same) prepare(nb, 0, M.bc / 2 + OVER); u32 bc = M.bc / 2; if (!c(ci).incremental_rehash(bt(nb, bc))) fail("wrong-result", "the bucket array could not be halved"); after_rehash(ci, nb, bc); }
        }
        drop_held_of(ci);
        Quiet q; verify_bufs(); check_one(ci);
      }
      SIM_PROBE("incremental cycle");
    } else skip();
  }
  // ------------------------------------------------------------ whole-container operations
  void op_clone(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    Dctx d{this, a, (int)(s.c & 1), {}};
    for (int i = 0; i < P.N; ++i) if (P.owner[i] == DEAD) P.create(i, P.key[i], P.prio[i]);
    int nf = 0; for (int i = 0; i < P.N; ++i) nf += P.owner[i] == FREE;
    if (nf < (int)m[b].ids.size()) return skip();
    std::fill(P.tmpmark.begin(), P.tmpmark.end(), 0);
    vec<int> olda = m[a].ids;
    Cctx x{this, {}, {}};
    bool threw;
    {
      Arm arm(s, SIM_BIT(F_CLONE) | SIM_BIT(F_HASH) | SIM_BIT(F_EQ) | SIM_BIT(F_FCOPY));
      if (s.d & 1) threw = attempt([&] { c(a).clone_from(boost::move(c(b)), NCloner{&x}, Disposer{&d}); });
      else threw = attempt([&] { c(a).clone_from(cc(b), Cloner{&x}, Disposer{&d}); });
    }
    std::fill(P.tmpmark.begin(), P.tmpmark.end(), 0);
    vec<int> want = olda;
    if (threw) { SIM_PROBE("clone_from threw"); if (x.dst.size() > 1) SIM_PROBE("clone_from threw after some clones"); want.insert(want.end(), x.dst.begin(), x.dst.end()); }
    expect_ids(sorted(d.got), sorted(want), "clone", threw ? "elements disposed by a clone_from that failed" : "elements disposed by clone_from");
    for (int id : olda) { drop_held(id); P.owner[id] = FREE; }
    for (int id : d.got) { P.owner[id] = d.action == 1 ? DEAD : FREE; drop_held(id); }
    m[a].ids.clear();
    if constexpr (INC) m[a].split = (u32)cc(a).split_count();
    if (!threw) {
      expect_ids(sorted(x.src), sorted(m[b].ids), "clone", "elements cloned");
      m[a].ids = x.dst; for (int id : x.dst) P.owner[id] = a;
      m[a].kind = m[b].kind; m[a].grain = m[b].grain;
      if (m[a].bc != m[b].bc) SIM_PROBE("clone_from into another bucket count");
    } else {
      Quiet q; int k = cc(a).hash_function().kind, gr = cc(a).hash_function().grain;
      if (cc(a).key_eq().grain == gr) { m[a].kind = k; m[a].grain = gr; }
      else { oracle_empty(a); int buf = m[a].buf; u32 bc = m[a].bc; reset(a); construct(a, buf, bc, m[b].kind, m[b].grain); }
    }
  }
  void oracle_empty(int a) { if (!order(a).empty() || !cc(a).empty() || cc(a).size()) fail("clone", "a clone_from that failed left elements behind"); }
  void swap_models(int a, int b) {
    drop_held_of(a); drop_held_of(b);
    std::swap(m[a], m[b]); std::swap(tt[a], tt[b]);
    for (int i : {a, b}) { bufuser[m[i].buf] = i; for (int id : m[i].ids) P.owner[id] = i; }
  }
  void op_swap(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    c(a).swap(c(b));
    swap_models(a, b);
  }
  void op_move_assign(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3;
    c(a) = boost::move(c(b));
    // observable result: a holds what b held; b is left with a's old state (documented as swap-like) or empty
    vec<int> nb = order(b), oa = m[a].ids;
    swap_models(a, b);
    if (nb.empty() && !oa.empty()) for (int id : oa) take(b, id);
    SIM_PROBE("move assignment");
  }
  void op_move_ctor(int a) {
    drop_held_of(a);
    C *t = new (arena_at(tmpoff)) C(boost::move(c(a)));
    { Quiet q; if (t->size() != m[a].ids.size()) fail("move", "moved-to container has the wrong size"); if (t->bucket_count() != m[a].bc) fail("move", "moved-to container has the wrong bucket count"); }
    c(a).~C(); memset(arena_at(coff[a]), FILL_FRESH, sizeof(C));
    new (arena_at(coff[a])) C(boost::move(*t));
    t->~C(); memset(arena_at(tmpoff), FILL_FRESH, sizeof(C));
    SIM_PROBE("move construction");
  }
  bool model_eq(int a, int b) {
    auto f = [&](int i) { vec<int> v; for (int id : m[i].ids) v.push_back(P.key[id]); return sorted(v); };
    return f(a) == f(b);
  }
  void op_compare(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3; const C &x = c(a), &y = c(b);
    if (m[a].kind != m[b].kind || m[a].grain != m[b].grain) return skip();
    if (s.c % 4 == 0) make_equal(a, b, s.d);
    bool eq = model_eq(a, b);
    if (eq && m[a].ids.size() > 2) SIM_PROBE("comparison of equal unordered containers");
    if ((x == y) != eq || (x != y) == eq) fail("wrong-result", "operator== is %d for containers with %s contents", (int)(x == y), eq ? "equal" : "different");
    if (!(x == x)) fail("wrong-result", "a container differs from itself");
    vec<int> oa = order(a), ob = order(b);
    bool lt = std::lexicographical_compare(oa.begin(), oa.end(), ob.begin(), ob.end(), [&](int p, int q) { return P.key[p] < P.key[q]; });
    if ((x < y) != lt || (y > x) != lt || (x >= y) == lt || (y <= x) == lt) fail("wrong-result", "ordering operators are wrong");
  }
  // fill b with free elements of the same keys as a, so that equality is exercised
  void make_equal(int a, int b, u32 salt) {
    Quiet q;
    while (!m[b].ids.empty()) { int id = m[b].ids.back(); c(b).erase(c(b).iterator_to(e(id))); take(b, id); }
    auto f = free_list(salt, (int)m[a].ids.size());
    if (f.size() < m[a].ids.size()) return;
    vec<int> src = m[a].ids; if (salt & 1) std::reverse(src.begin(), src.end());
    bool off = salt % 8 == 3;
    for (size_t i = 0; i < f.size(); ++i) { P.rekey(f[i], P.key[src[i]] + (off && i + 1 == f.size() ? 1 : 0), 0); bool ins = true; if constexpr (U) ins = c(b).insert(e(f[i])).second; else c(b).insert(e(f[i])); if (ins) put(b, f[i]); }
  }
  void op_hold(const Step &s, int ci) {
    int n = (int)m[ci].ids.size(); if (!n || (STATEFUL && taboff[1])) return skip();
    int k = (int)(s.b % NHELD), pos = (int)(s.c % n); Held &H = held(k);
    H.it = it_at(ci, pos); H.cit = H.it; hact[k] = true; hid[k] = order(ci)[pos];
  }
  void op_iterto(const Step &s, int ci) {
    int n = (int)m[ci].ids.size(); if (!n) return skip();
    vec<int> ord = order(ci); int pos = (int)(s.b % n), id = ord[pos]; E &x = e(id); const E &cx = x;
    It it; CIt cit;
    it = c(ci).iterator_to(x); cit = cc(ci).iterator_to(cx);
    if (check_it(ci, it, "iterator_to") != id || check_it(ci, cit, "iterator_to const") != id) fail("wrong-result", "iterator_to is wrong");
    It o = it++; if (check_it(ci, o, "post-increment") != id) fail("wrong-result", "post-increment is wrong");
    int nid = check_it(ci, it, "++ of iterator_to"); if (nid != (pos + 1 < n ? ord[pos + 1] : -1)) fail("wrong-result", "++ of iterator_to goes to the wrong element");
    CIt cv(o); if (cv != cit) fail("wrong-result", "iterator conversion is wrong");
    Quiet q; size_t b = bucket_of(ci, id);
    size_t before = 0, after = 0;
    { LIt l = c(ci).begin((Sz)b); for (; l != c(ci).end((Sz)b) && &*l != &x; ++l) ++before; }
    { LIt l = c(ci).local_iterator_to(x); if (&*l != &x) fail("wrong-result", "local_iterator_to is wrong"); for (; l != c(ci).end((Sz)b); ++l) { ++after; if (after > (size_t)n) fail("wrong-result", "local iteration does not end"); } }
    { CLIt l = cc(ci).local_iterator_to(cx); if (&*l != &x) fail("wrong-result", "local_iterator_to const is wrong"); }
    if constexpr (!STATEFUL) { LIt l = C::s_local_iterator_to(x); CLIt k = C::s_local_iterator_to(cx); if (&*l != &x || &*k != &x) fail("wrong-result", "s_local_iterator_to is wrong"); }
    if (before + after != cc(ci).bucket_size((Sz)b)) fail("wrong-result", "local iterators disagree with bucket_size");
  }
  void op_destroy_elem(const Step &s) {
    int id = (int)(s.b % P.N); if (P.owner[id] == DEAD) return skip();
    if (AUTO && P.owner[id] >= 0) {
      int ci = P.owner[id];
      P.ptr(id)->~E(); take(ci, id); P.poison(id);
      SIM_PROBE("destroyed a linked auto-unlink element");
    } else if (P.owner[id] == FREE) P.kill(id); else skip();
  }
  void op_hook_unlink(const Step &s) {
    if constexpr (AUTO && !ANY && HOOK) {
      int id = (int)(s.b % P.N); if (P.owner[id] == DEAD) return skip();
      P.pick(id); int ci = P.owner[id];
      E::hook(e(id)).unlink();
      if (ci >= 0) { take(ci, id); SIM_PROBE("hook unlink() of a linked element"); }
    } else skip();
  }
  void op_swap_nodes(const Step &s) {
    if constexpr (!ANY && HOOK && !STORE && !OPTM && !LIN) {
      int a = -1, b = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0) { a = i; break; } }
      if (a < 0) return skip();
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.c + d) % P.N); if (i != a && (P.owner[i] >= 0 ? P.key[i] == P.key[a] : SAFE && P.pick(i))) { b = i; break; } }
      if (b < 0) return skip();
      int ca = P.owner[a], cb = P.owner[b];
      if (cb < 0) P.rekey(b, P.key[a], P.prio[b]);
      if (s.d & 2) E::hook(e(a)).swap_nodes(E::hook(e(b))); else E::hook(e(b)).swap_nodes(E::hook(e(a)));
      *std::find(m[ca].ids.begin(), m[ca].ids.end(), a) = -7;
      if (cb >= 0) *std::find(m[cb].ids.begin(), m[cb].ids.end(), b) = a;
      *std::find(m[ca].ids.begin(), m[ca].ids.end(), -7) = b;
      P.owner[b] = ca; P.owner[a] = cb >= 0 ? cb : (int)FREE;
      drop_held(a); drop_held(b); SIM_PROBE("hash swap_nodes");
    } else skip();
  }
  void op_misuse(const Step &s, int ci) {
    if constexpr (SAFE) {
      int id = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0 && !unknowable(i)) { id = i; break; } }
      if (id < 0 || !same_traits(ci, P.owner[id])) return skip();
      bool asserted = true; const char *what = "";
      if (s.c % 2) {
        what = "insert";
        if (U && has_key(ci, P.key[id])) return skip();
        // (insert stores the hash before it notices: stay where that changes nothing)
        if (STORE && (m[ci].kind != m[P.owner[id]].kind || m[ci].grain != m[P.owner[id]].grain)) return skip();
        asserted = expects_assert([&] { c(ci).insert(e(id)); });
        // the node was not linked; the size may have been counted already, so start over with a fresh container
        g.quiet = false;
        if (!asserted) fail("no-assert", "%s of an element that is already linked was not reported", what);
        SIM_PROBE("misuse reported");
        rebuild(ci);
        return;
      }
      if constexpr (LM == bi::safe_link && HOOK) { what = "the destructor"; typedef typename E::hook_t H; asserted = expects_assert([&] { E::hook(e(id)).~H(); }); } else return skip();
      g.quiet = false;
      if (!asserted) fail("no-assert", "%s of an element that is still linked was not reported", what);
      SIM_PROBE("misuse reported");
    } else skip();
  }
  // after a deliberately broken precondition the container is abandoned
  void rebuild(int ci) {
    Quiet q;
    int buf = m[ci].buf; u32 bc = m[ci].bc; int k = m[ci].kind, gr = m[ci].grain;
    c(ci).clear();
    for (int id : vec<int>(m[ci].ids)) take(ci, id);
    c(ci).~C(); memset(arena_at(coff[ci]), FILL_FRESH, sizeof(C));
    construct(ci, buf, bc, k, gr);
  }
  void op_relocate() { if constexpr (RELOC) { arena_relocate(); SIM_PROBE("relocated"); } else skip(); }
  // ------------------------------------------------------------ concurrency
  struct RCtx { HashEngine *w; u64 seed; int nops; vec<int> ord[3]; };
  static void reader_body(void *v, int f) {
    RCtx &r = *(RCtx *)v; HashEngine &w = *r.w; Rng rng(mix(r.seed, f));
    for (int i = 0; i < r.nops; ++i) {
      int ci = (int)rng.below(3), o = (ci + 1) % 3; const C &x = w.cc(ci); Model &M = w.m[ci]; size_t n = M.ids.size();
      int k = n && rng.chance(2, 3) ? w.P.key[M.ids[rng.below((u32)n)]] : (int)rng.below(w.keyrange);
      size_t want = w.of_key(ci, k).size();
      switch (rng.below(11)) {
      case 0: { size_t p = 0; for (CIt it = x.cbegin(); it != x.cend(); ++it, ++p) if (p >= n || &*it != w.P.ptr(r.ord[ci][p])) fail("reader", "a concurrent reader saw a wrong element at position %zu", p); if (p != n) fail("reader", "a concurrent reader saw %zu of %zu elements", p, n); break; }
      case 1: if (x.size() != n || x.empty() != (n == 0)) fail("reader", "concurrent size() is wrong"); break;
      case 2: w.with_key(k, [&](const Key &key) { if (x.count(key) != want) fail("reader", "concurrent count() is wrong"); }); break;
      case 3: w.with_key(k, [&](const Key &key) { CIt it = x.find(key); if ((it != x.cend()) != (want != 0) || (want && !w.same_cls(ci, it->key, k))) fail("reader", "concurrent find() is wrong"); }); break;
      case 4: { auto p = x.equal_range(HKey{k, M.grain}, HHashT{M.kind}, HEqT()); size_t q = 0; for (CIt it = p.first; it != p.second; ++it) if (++q > want) break; if (q != want) fail("reader", "concurrent equal_range() is wrong"); break; }
      case 5: { size_t b = 0; w.with_key(k, [&](const Key &key) { b = x.bucket(key); }); size_t q = 0, z = x.bucket_size((Sz)b); for (CLIt l = x.cbegin((Sz)b); l != x.cend((Sz)b); ++l) ++q; if (q != z) fail("reader", "concurrent bucket iteration is wrong"); break; }
      case 6: if (M.kind == w.m[o].kind && M.grain == w.m[o].grain) { if ((x == w.cc(o)) != w.model_eq(ci, o)) fail("reader", "concurrent operator== is wrong"); } break;
      case 7: {   // every other lookup overload
        u32 v = rng.below(4); size_t cnt = 0; CIt f; std::pair<CIt, CIt> q; HKey h{k, M.grain};
        if (v == 0) w.with_key(k, [&](const Key &key) { cnt = x.count(key); f = x.find(key); q = x.equal_range(key); });
        else if (v == 1) { cnt = x.count(h, HHashT{M.kind}, HEqT()); f = x.find(h, HHashT{M.kind}, HEqT()); q = x.equal_range(h, HHashT{M.kind}, HEqT()); }
        else { cnt = x.count(k, x.hash_function(), x.key_eq()); f = x.find(k, x.hash_function(), x.key_eq()); q = x.equal_range(k, x.hash_function(), x.key_eq()); }
        size_t z = 0; for (CIt it = q.first; it != q.second; ++it) if (++z > want) break;
        if (cnt != want || z != want || (f != x.cend()) != (want != 0) || (want && (f != q.first || !w.same_cls(ci, f->key, k)))) fail("reader", "a concurrent lookup is wrong");
        break;
      }
      case 8: {   // observers
        if (x.begin() != x.cbegin() || x.end() != x.cend()) fail("reader", "concurrent begin()/end() overloads disagree");
        if (to_raw(x.bucket_pointer()) != w.bufp(M.buf) || x.bucket_count() != M.bc) fail("reader", "concurrent bucket_pointer()/bucket_count() is wrong");
        if constexpr (INC) if (x.split_count() != M.split) fail("reader", "concurrent split_count() is wrong");
        if (x.hash_function().kind != M.kind || x.key_eq().grain != M.grain) fail("reader", "concurrent hash_function()/key_eq() is wrong");
        u32 b = M.bc ? (u32)rng.below(M.bc) : 0; if constexpr (INC) b = M.split ? b % M.split : 0;
        if (x.begin((Sz)b) != x.cbegin((Sz)b) || x.end((Sz)b) != x.cend((Sz)b)) fail("reader", "concurrent local begin()/end() overloads disagree");
        break;
      }
      case 9: {   // element -> iterator
        if (!n) break;
        size_t p = rng.below((u32)n); int id = r.ord[ci][p]; const E &ce = w.e(id);
        CIt it = x.iterator_to(ce); if (&*it != &ce) fail("reader", "concurrent iterator_to() is wrong");
        ++it; if (p + 1 < n ? &*it != w.P.ptr(r.ord[ci][p + 1]) : it != x.cend()) fail("reader", "concurrent ++ of iterator_to() is wrong");
        CLIt l = x.local_iterator_to(ce); if (&*l != &ce) fail("reader", "concurrent local_iterator_to() is wrong");
        if constexpr (!STATEFUL) { CLIt s = C::s_local_iterator_to(ce); if (s != l) fail("reader", "concurrent s_local_iterator_to() is wrong"); }
        ++l; (void)l;
        break;
      }
      default: { x.check(); if (n) { int id = M.ids[rng.below((u32)n)]; const E &ce = w.e(id); CIt it = x.iterator_to(ce); if (&*it != &ce) fail("reader", "concurrent iterator_to() is wrong"); } if (x.bucket_count() != M.bc) fail("reader", "concurrent bucket_count() is wrong"); }
      }
    }
  }
  void op_readers(const Step &s) {
    RCtx r{this, mix(tr->seed, si), 2 + (int)(s.b % 5), {}};
    arena_protect(true);
    for (int i = 0; i < 3; ++i) r.ord[i] = order(i);
    Fibers::run(2 + (int)(s.a % 3), reader_body, &r, tr->sched, schedpos);
    arena_protect(false);
    SIM_PROBE("reader batch");
  }
  static void writer_body(void *v, int f) {
    RCtx &r = *(RCtx *)v; HashEngine &w = *r.w; Rng rng(mix(r.seed, 100 + f));
    int ci = f; C &x = w.c(ci); Model &M = w.m[ci];
    for (int i = 0; i < r.nops; ++i) {
      u32 k = rng.below(8), st = (u32)rng.next() % 64;
      int n = (int)M.ids.size();
      if (k < 3) {
        int id = -1;
        for (int d = 0; d < w.P.N; ++d) { int j = (int)((st + d) % w.P.N); if (j % 3 == f && w.P.pick(j)) { id = j; break; } }
        if (id < 0) continue;
        bool had = w.has_key(ci, w.P.key[id]);
        if constexpr (U) { auto p = x.insert(w.e(id)); if (p.second == had) fail("parallel", "insert is wrong while other containers are being used"); if (p.second) w.put(ci, id); }
        else { x.insert(w.e(id)); w.put(ci, id); }
      } else if (k == 3) { if (n) { int id = M.ids[rng.below(n)]; x.erase(x.iterator_to(w.e(id))); w.take(ci, id); } }
      else if (k == 4) { if (n) { int key = w.P.key[M.ids[rng.below(n)]]; auto gone = w.of_key(ci, key); size_t q = 0; w.with_key(key, [&](const Key &kk_) { q = x.erase(kk_); }); if (q != gone.size()) fail("parallel", "erase(key) is wrong while other containers are being used"); for (int id : gone) w.take(ci, id); } }
      else if (k == 5) { if constexpr (INC) { bool grow = rng.below(2); bool q = x.incremental_rehash(grow); if (q != (grow ? M.split < M.bc : M.split > M.bc / 2)) fail("parallel", "incremental_rehash is wrong while other containers are being used"); if (q) { if (grow) ++M.split; else --M.split; } }
                         else { u32 bc = w.legal_count(st); if (bc > M.bc) continue; x.rehash(w.bt(M.buf, bc)); w.bpoison(M.buf, bc + OVER, M.bc + OVER); M.bc = bc; M.split = bc; } }
      else if (k == 6) { int key = (int)rng.below(w.keyrange); size_t want = w.of_key(ci, key).size(), q = 0; w.with_key(key, [&](const Key &kk_) { q = x.count(kk_); }); if (q != want) fail("parallel", "count is wrong while other containers are being used"); }
      else { int q = 0; for (It it = x.begin(); it != x.end(); ++it) if (++q > n) break; if (q != n) fail("parallel", "iteration wrong while other containers are being used"); }
    }
  }
  void op_parallel(const Step &s) {
    RCtx r{this, mix(tr->seed, si), 3 + (int)(s.b % 6), {}};
    for (int i = 0; i < 3; ++i) drop_held_of(i);
    Fibers::run(3, writer_body, &r, tr->sched, schedpos);
    SIM_PROBE("parallel containers batch");
  }
  void op_rekey(const Step &s) { int id = P.take_free(s.b); if (id < 0) return skip(); P.rekey(id, (int)(s.c % keyrange), (int)s.d); }
  void reset(int ci) {
    c(ci).~C();
    for (int id : m[ci].ids) { P.owner[id] = FREE; drop_held(id); }
    vec<int> old = m[ci].ids; m[ci].ids.clear();
    if constexpr (SAFE) for (int id : old) if (linked(id)) fail("is_linked", "element %d is still linked after its container was destroyed", id);
    memset(arena_at(coff[ci]), FILL_FRESH, sizeof(C));
    bufuser[m[ci].buf] = -1; bpoison(m[ci].buf, 0, BUFCAP);
  }
  void op_recreate(const Step &s, int ci) { int k = m[ci].kind, gr = m[ci].grain; reset(ci); if (s.c % 4 == 1) { k = (int)(s.d % 6); gr = s.d & 64 ? 3 : 1; } construct(ci, free_buf(s.b), legal_count(s.d), k, gr); }
  void op_ctor_range(const Step &s, int ci) {
    reset(ci);
    auto ids = free_list(s.b, (int)(s.c % 9)); auto v = ptrs(ids);
    PtrIter<E> b(v.data()), en(v.data() + v.size());
    int buf = free_buf(s.d); u32 bc = legal_count(s.d >> 2); int kind = m[ci].kind, gr = m[ci].grain;
    bufuser[buf] = ci; prepare(buf, 0, bc + OVER); m[ci].buf = buf; m[ci].bc = bc; m[ci].split = initial_split(bc);
    bool threw;
    { Arm arm(s, SAFE && !LIN ? SIM_BIT(F_HASH) | SIM_BIT(F_EQ) : 0);
      threw = attempt([&] { if constexpr (STATEFUL) new (&c(ci)) C(b, en, bt(buf, bc), HashT(kind, gr), EqT(gr), VT(table(ci))); else new (&c(ci)) C(b, en, bt(buf, bc), HashT(kind, gr), EqT(gr)); }); }
    if (threw) {
      SIM_PROBE("range constructor threw");
      if constexpr (SAFE) for (int id : ids) if (linked(id)) fail("is_linked", "element %d is still linked after the range constructor failed", id);
      construct(ci, buf, bc, kind, gr);
      return;
    }
    for (int id : ids) if (!U || !has_key(ci, P.key[id])) put(ci, id);
  }
  void op_bulk(const Step &s, int ci) {
    auto ids = free_list(s.d, 8 + (int)(s.b % (P.N > 300 ? P.N / 2 : 64)));
    for (int id : ids) { bool ins = true; if constexpr (U) ins = c(ci).insert(e(id)).second; else c(ci).insert(e(id)); if (U && ins == has_key(ci, P.key[id])) fail("wrong-result", "insert accepted a duplicate or refused a new key"); if (ins) put(ci, id); }
    SIM_PROBE("bulk insert");
  }
  void op_suggest(const Step &s) {
    // (the documentation and the library's own tests disagree about "lower"; only what both promise is checked)
    Sz n = (Sz)(s.b % 4 ? s.c % 200 : s.c * 1000 + s.d), u = C::suggested_upper_bucket_count(n), l = C::suggested_lower_bucket_count(n);
    if (u < n) fail("wrong-result", "suggested_upper_bucket_count(%zu) is %zu", (size_t)n, (size_t)u);
    if (!u || !l) fail("wrong-result", "suggested bucket count is zero");
  }
  void op_hook_copy(const Step &s) {
    if constexpr (HOOK) {
      int a = (int)(s.b % P.N), b = (int)(s.c % P.N);
      if (P.owner[a] == DEAD || P.owner[b] == DEAD || a == b) return skip();
      typedef typename E::hook_t H;
      if (s.d & 1) E::hook(e(a)) = E::hook(e(b));
      else { H h(E::hook(e(b))); if constexpr (SAFE) if (h.is_linked()) fail("hook-copy", "a copied hook is linked"); }
    } else skip();
  }
  void op_transfer(const Step &s, int a) {
    int b = (a + 1 + (int)(s.b % 2)) % 3; if (m[a].ids.empty()) return skip();
    int id = m[a].ids[s.c % m[a].ids.size()];
    c(a).erase(c(a).iterator_to(e(id))); take(a, id);
    It r; bool ins = true;
    if constexpr (U) { auto p = c(b).insert(e(id)); r = p.first; ins = p.second; } else r = c(b).insert(e(id));
    did_insert(b, id, r, ins, "insert");
  }
  void step(const Step &s) {
    int ci = (int)(s.a % 3);
    switch (s.op) {
    case H_INSERT: op_insert(s, ci, false); break;
    case H_INSERT_DUP: op_insert(s, ci, true); break;
    case H_INSERT_RANGE: op_insert_range(s, ci); break;
    case H_COMMIT: op_commit(s, ci); break;
    case H_ERASE_IT: op_erase_it(s, ci); break;
    case H_ERASE_RANGE: op_erase_range(s, ci); break;
    case H_ERASE_KEY: op_erase_key(s, ci); break;
    case H_CLEAR: op_clear(s, ci); break;
    case H_LOOKUP: op_lookup(s, ci); break;
    case H_BUCKETS: op_buckets(s, ci); break;
    case H_REHASH_NEW: op_rehash(s, ci, false); break;
    case H_REHASH_SAME: op_rehash(s, ci, true); break;
    case H_FULL_REHASH: op_full_rehash(s, ci); break;
    case H_INCR: op_incr(s, ci); break;
    case H_INCR_BT: op_incr_bt(s, ci); break;
    case H_CLONE: op_clone(s, ci); break;
    case H_SWAP: op_swap(s, ci); break;
    case H_MOVE_ASSIGN: op_move_assign(s, ci); break;
    case H_MOVE_CTOR: op_move_ctor(ci); break;
    case H_COMPARE: op_compare(s, ci); break;
    case H_HOLD: op_hold(s, ci); break;
    case H_ITERTO: op_iterto(s, ci); break;
    case H_DESTROY_ELEM: op_destroy_elem(s); break;
    case H_HOOK_UNLINK: op_hook_unlink(s); break;
    case H_MISUSE: op_misuse(s, ci); break;
    case H_RELOCATE: op_relocate(); break;
    case H_READERS: op_readers(s); break;
    case H_PARALLEL: op_parallel(s); break;
    case H_REKEY: op_rekey(s); break;
    case H_RECREATE: op_recreate(s, ci); break;
    case H_CTOR_RANGE: op_ctor_range(s, ci); break;
    case H_BULK: op_bulk(s, ci); break;
    case H_SUGGEST: op_suggest(s); break;
    case H_HOOK_COPY: op_hook_copy(s); break;
    case H_TRANSFER: op_transfer(s, ci); break;
    case H_CYCLE: op_cycle(s, ci); break;
    case H_SWAP_NODES: op_swap_nodes(s); break;
    }
  }
  static void run(const Trace &t) {
    static HashEngine *w = nullptr;
    delete w; w = new HashEngine;
    w->start(t);
    w->oracle();
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i];
      w->si = i; g.slot->step = i; g.in_step = true; w->skipped = false; w->shadow_begin();
      op_begin(hash_opname(s.op));
      log("step %u %s a=%u b=%u c=%u d=%u fault=%u@%u", i, hash_opname(s.op), s.a, s.b, s.c, s.d, s.fk, s.fn);
      w->step(s);
      w->P.step_end(); ++g.slot->steps; if (w->skipped) ++g.slot->op_skipped; else ++g.slot->op_done;
      if (oracle_due(t, i, H_READERS)) w->oracle(); else w->forget_unlinked();
    }
    op_begin("teardown");
    for (int i = 0; i < 3; ++i) w->c(i).~C();
    for (int i = 0; i < w->P.N; ++i) if (w->P.owner[i] != DEAD) {
      if constexpr (SAFE) if (w->linked(i)) fail("is_linked", "element %d is still linked after its container was destroyed", i);
      w->P.ptr(i)->~E();
    }
  }
  static void gen(Rng &r, const Mode &md, Trace &t) {
    Focus f = focus_of(md.prop);
    bool big = r.chance(1, f.bulk ? 3 : 20);
    int n = big ? (int)r.range(60, 200) : (int)r.range(3, r.chance(1, 3) ? 40 : 14);
    int kr = r.chance(1, 3) ? 3 + (int)r.below(5) : r.chance(1, 2) ? n : 4 * n + 4;
    static const u32 mb[] = {4, 8, 16, 32, 64};
    const bool huge = r.chance(1, f.bulk || f.rehash ? 150 : 500); u32 hb = 0;  // wide bucket arrays, many elements
    if (huge) { big = true; n = (int)r.range(300, r.chance(1, 2) ? 800 : 2500); hb = 256u << r.below(FMOD ? 7 : 5); kr = r.chance(1, 4) ? 40 + (int)r.below(200) : 4 * n; }
    const bool giant = !STATEFUL && r.chance(1, f.bulk || f.rehash || f.compound ? 10000 : 30000);
    if (giant) { big = true; n = (int)r.range(4000, 24000); hb = 1024u << r.below(FMOD ? 5 : 3); kr = r.chance(1, 4) ? 1000 : 4 * n; }
    t.params = {(u32)n, (u32)kr, huge || giant ? hb : FMOD ? 64u : mb[r.below(5)], giant ? (r.below(3) * 3 + 1) % 6 : r.below(6), r.chance(1, 3) ? 3u : 1u, giant || r.chance(2, 3) ? 1u : 0u};
    OpMix w(H_NOPS);
    static const u32 base[H_NOPS] = {
      14, 5, U ? 8u : 0u, 8, 5, 8, 1, 6, 3, 4,
      6, 3, INC ? 10u : 0u, INC ? 6u : 0u, 3, 3, 3, 2, 4, 4,
      5, 4, AUTO && !ANY && HOOK ? 6u : 0u, SAFE ? 3u : 0u, RELOC ? 2u : 0u, 2, 1, 3, 2, 2,
      0, 1, HOOK ? 2u : 0u, 4, 10, INC ? 6u : 0u, !ANY && HOOK && !STORE && !OPTM && !LIN ? 3u : 0u};
    for (u32 i = 0; i < H_NOPS; ++i) w.set(i, base[i]);
    w.swarm(r);
    w.w[H_INSERT] = std::max(w.w[H_INSERT], 12u); if (!U) w.w[H_INSERT_DUP] = std::max(w.w[H_INSERT_DUP], 8u);
    if (big) { w.w[H_BULK] = 20; w.w[H_CLEAR] = 0; }
    auto boost_ = [&](u32 op, u32 v) { if (base[op]) w.w[op] = std::max(w.w[op], v); };
    if (f.readers) boost_(H_READERS, 30);
    if (f.parallel) boost_(H_PARALLEL, 40);
    if (f.reloc) boost_(H_RELOCATE, 25);
    if (f.clone) boost_(H_CLONE, 40);
    if (f.rehash) for (u32 op : {H_REHASH_NEW, H_REHASH_SAME, H_FULL_REHASH, H_INCR, H_INCR_BT, H_CYCLE, H_SUGGEST}) boost_(op, 16);
    if (f.transfer) boost_(H_TRANSFER, 30);
    if (f.iters) { boost_(H_HOLD, 30); boost_(H_ITERTO, 15); }
    if (f.swapmove) { boost_(H_SWAP, 20); boost_(H_MOVE_ASSIGN, 15); boost_(H_MOVE_CTOR, 15); boost_(H_RECREATE, 5); }
    if (f.commit) boost_(H_COMMIT, 40);
    if (f.positional) for (u32 op : {H_BUCKETS, H_ITERTO, H_SUGGEST, H_ERASE_RANGE, H_COMPARE}) boost_(op, 12);
    if (f.dispose) for (u32 op : {H_ERASE_IT, H_ERASE_RANGE, H_ERASE_KEY, H_CLEAR, H_CLONE}) boost_(op, 10);
    if (f.safe) { boost_(H_MISUSE, 20); boost_(H_DESTROY_ELEM, 10); boost_(H_RECREATE, 4); boost_(H_HOOK_COPY, 8); }
    if (f.autoun) { boost_(H_HOOK_UNLINK, 25); boost_(H_DESTROY_ELEM, 20); boost_(H_HOOK_COPY, 8); }
    if (f.nodes) boost_(H_SWAP_NODES, 40);
    if (f.compound) for (u32 op : {H_REHASH_NEW, H_REHASH_SAME, H_FULL_REHASH, H_INCR, H_INSERT_RANGE, H_ERASE_KEY, H_CTOR_RANGE}) boost_(op, 15);
    u32 fprob = f.faults ? 50 : 8;
    if (giant) w.w[H_READERS] = w.w[H_PARALLEL] = w.w[H_RECREATE] = 0;
    const u32 span = giant ? 1u << 20 : 4096;
    int steps = giant ? (int)r.range(5, 14) : huge ? (int)r.range(6, 24) : (int)r.range(8, 60);
    bool anyfib = false;
    for (int i = 0; i < steps; ++i) {
      Step s;
      s.op = i < 3 ? (big ? (u32)H_BULK : (u32)H_INSERT) : w.pick(r);
      s.a = r.below(64); if (r.chance(1, 2)) s.a -= s.a % 3;
      s.b = r.below(span); s.c = r.below(span); s.d = r.below(span);
      if (r.below(100) < fprob) {
        s.fk = s.op == H_CLONE && r.chance(2, 3) ? (u32)F_CLONE : r.chance(1, 2) ? (u32)F_HASH : (u32)F_EQ;
        if (s.op == H_REHASH_NEW || s.op == H_REHASH_SAME || s.op == H_FULL_REHASH || s.op == H_INCR) s.fk = F_HASH;
        s.fn = r.chance(1, 2) ? r.range(1, 4) : r.range(1, giant ? 60000 : 24);
        if (s.op == H_CLONE && r.chance(1, 5)) { s.fk = F_FCOPY; s.fn = r.range(1, 2); }
      }
      anyfib |= s.op == H_READERS || s.op == H_PARALLEL;
      t.steps.push_back(s);
    }
    if (anyfib) { u32 k = r.chance(1, 4) ? 6 : 250; u32 style = r.below(3); for (u32 i = 0; i < k; ++i) t.sched.push_back(r.below(8) | ((style == 0 ? 0 : style == 1 ? r.below(4) : r.below(40)) << 3)); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "hash", gen, run, hash_opname}; }
};
} // namespace sim
#define SIM_HASH_CONFIG(CFG, NAME) static ::sim::Registrar reg_##CFG(::sim::HashEngine<CFG>::entry(NAME));

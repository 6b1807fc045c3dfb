// Cost engine for the ordered containers.
#pragma once
#include "cost.hpp"
namespace sim {
enum CTKind { CK_RB, CK_AVL, CK_SG, CK_SPLAY, CK_TREAP, CK_BS };
enum CTOp { CT_BULK, CT_INSERT, CT_HINT, CT_POS, CT_CHECK, CT_ERASE_IT, CT_ERASE_KEY, CT_ERASE_RANGE, CT_FIND, CT_RANGEQ, CT_CONSTFIND, CT_ACCESS, CT_ITERATE, CT_CLEAR, CT_CLONE, CT_SWAP,
  CT_MOVE, CT_MERGE, CT_INSERT_RANGE, CT_CTOR_RANGE, CT_REPLACE, CT_REBALANCE, CT_COMPARE, CT_SPLAY, CT_UNLINK_LEFT, CT_DRAIN, CT_NOPS };
inline const char *ct_opname(u32 o) {
  static const char *n[] = {"bulk insert", "insert", "insert(hint)", "insert_before/push_back/push_front", "insert_check+commit", "erase(it)", "erase(key)", "erase(range)", "find", "range queries", "const lookups", "access", "iterate", "clear", "clone_from", "swap",
    "move", "merge", "insert(range)", "construct(range)", "replace_node", "rebalance", "compare", "splay", "unlink_leftmost", "drain"};
  return o < CT_NOPS ? n[o] : "?";
}
template <class Cfg> struct CostTree {
  typedef typename Cfg::E E; typedef typename Cfg::C C; typedef typename C::iterator It; typedef typename C::key_type KT;
  static const int K = Cfg::kind;
  static const bool U = Cfg::unique, CTS = C::constant_time_size, SAFE = Cfg::safe, KOV = std::is_same<KT, int>::value, BOUNDED = K == CK_RB || K == CK_AVL || K == CK_SG || K == CK_TREAP, STRICT = K == CK_RB || K == CK_AVL;
  CostPool<E> cp;
  vec<int> m[2];                         // ids in key order, equal keys in insertion order
  size_t coff[3]; size_t maxn[2];
  double credit = 0, spent = 0;          // amortised budget (scapegoat rebuilds, splaying)
  int keyrange = 1;
  C &c(int i) { return *(C *)arena_at(coff[i]); }
  E &e(int i) { return cp.P.e(i); }
  int key(int i) { return cp.P.key[i]; }
  size_t lower(int a, int k) { return (size_t)(std::lower_bound(m[a].begin(), m[a].end(), k, [&](int id, int kk) { return key(id) < kk; }) - m[a].begin()); }
  size_t upper(int a, int k) { return (size_t)(std::upper_bound(m[a].begin(), m[a].end(), k, [&](int kk, int id) { return kk < key(id); }) - m[a].begin()); }
  It at(int a, size_t p) { return p < m[a].size() ? c(a).iterator_to(e(m[a][p])) : c(a).end(); }
  double depth(int a, size_t n) {        // guaranteed longest path from the root
    double l = lg((double)n);
    switch (K) { case CK_RB: return 2 * l + 1; case CK_AVL: return 1.4405 * l + 1; case CK_SG: return 2.0 * lg((double)std::max(maxn[a], n)) + 3; case CK_TREAP: return 5 * l + 12; default: return (double)n + 1; }
  }
  void start(const Trace &t) {
    keyrange = (int)t.param(1, 64);
    cp.setup((int)t.param(0, 64), mix(t.seed, 5), keyrange, false);
    for (int i = 0; i < 3; ++i) { coff[i] = arena_alloc(sizeof(C), 16); new (arena_at(coff[i])) C(); }
    maxn[0] = maxn[1] = 0;
  }
  void put(int a, size_t p, int id) { m[a].insert(m[a].begin() + p, id); maxn[a] = std::max(maxn[a], m[a].size()); }
  void took(int a) { if (m[a].size() * 2 < maxn[a]) { if (m[a].empty()) maxn[a] = 0; } }
  template <class... X> auto ins(C &x, X &&...v) { return x.insert(std::forward<X>(v)...); }
  // one operation of an amortised tree
  void amort(const Meter &M, double unit, size_t n) {
    credit += unit; spent += (double)M.l;
    if (K == CK_SG) COST("sg.amortised", (Meter)summary(), credit, n);
    if (K == CK_SPLAY) COST("splay.amortised", (Meter)summary(), credit, n);
  }
  Meter summary() { Meter s; s.l = (u64)spent; s.f = 0; return s; }
  double logn(int a) { return lg((double)std::max(maxn[a], m[a].size())); }
#define TCOST(NAME, M, UNIT, N) do { if (STRICT) COST("tree." NAME, M, UNIT, N); else if (K == CK_TREAP) COST("treap." NAME, M, UNIT, N); else if (K == CK_SG || K == CK_SPLAY) amort(M, UNIT, N); } while (0)
#define TCALLS(NAME, M, ALLOWED, N) do { if (BOUNDED) CALLS("tree." NAME, M, ALLOWED, N); } while (0)
  int newkey(int pattern, u32 k, u32 total, Rng &r) {
    int q = keyrange / (int)std::max(1u, total) + 1;
    switch (pattern) {
    case 0: return (int)k * q; case 1: return (int)(total - k) * q; case 2: return (int)(k & 1 ? k : 2 * total - k) * q; case 3: return 7;
    case 4: return (int)(k % 16) * 1000 + (int)k / 16; default: return (int)r.below((u32)keyrange);
    }
  }
  bool insert_one(int a, int id) {
    int k = key(id); size_t n = m[a].size(), p = U ? lower(a, k) : upper(a, k); bool dup = U && p < n && key(m[a][p]) == k, done;
    MEASURE(M, if constexpr (U) done = c(a).insert(e(id)).second; else { c(a).insert(e(id)); done = true; });
    TCOST("insert", M, logn(a), n); TCALLS("insert", M, (K == CK_TREAP ? 2 : 1) * depth(a, n + 1) + 2, n);
    if (done == dup) fail("wrong-result", "insert reported %d", done);
    if (done) put(a, p, id); else cp.put(id);
    return done;
  }
  void full_check() {
    Quiet q;
    for (int a = 0; a < 2; ++a) {
      size_t i = 0; for (auto it = c(a).begin(); it != c(a).end(); ++it, ++i) if (i >= m[a].size() || &*it != &e(m[a][i])) fail("contents", "container %d differs from the model at position %zu", a, i);
      if (i != m[a].size()) fail("contents", "container %d has %zu elements, expected %zu", a, i, m[a].size());
    }
  }
  void release(int a) { for (int i : m[a]) cp.put(i); m[a].clear(); maxn[a] = 0; }
  void erase_model(int a, size_t i, size_t j) { for (size_t k = i; k < j; ++k) cp.put(m[a][k]); m[a].erase(m[a].begin() + i, m[a].begin() + j); took(a); }
  void step(const Step &s) {
    int a = (int)(s.a & 1), b = 1 - a;
    C &x = c(a), &y = c(b);
    vec<int> &A = m[a], &B = m[b];
    size_t n = A.size();
    Rng r(mix(s.d, s.c));
    double D = depth(a, n), L = logn(a);
    switch (s.op) {
    case CT_BULK: for (u32 k = 0; k < s.b; ++k) { int id = cp.get(); if (id < 0) break; cp.P.rekey(id, newkey((int)(s.d % 7), k, s.b, r), cp.P.prio[id]); insert_one(a, id); } break;
    case CT_INSERT: { int id = cp.get(); if (id < 0) return; insert_one(a, id); break; }
    case CT_HINT: {                       // a run of insertions with the exact position as hint
      bool asc = s.d & 1; u32 k = 0; double links = 0; size_t n0 = n; int base = asc ? (n ? key(A.back()) : 0) : (n ? key(A[0]) : 0); bool mid = (s.d & 6) == 0;
      for (; k < s.b; ++k) {
        int id = cp.get(); if (id < 0) break;
        int kv = mid ? (int)r.below((u32)keyrange) : asc ? base + (int)k + 1 : base - (int)k - 1;
        cp.P.rekey(id, kv, cp.P.prio[id]);
        n = A.size(); size_t p = U ? lower(a, kv) : upper(a, kv); if (U && p < n && key(A[p]) == kv) { cp.put(id); continue; }
        It h = at(a, p);
        MEASURE(M, x.insert(h, e(id))); links += (double)M.l;
        TCOST("insert(hint)", M, logn(a), n); if (K != CK_SPLAY) CALLS("tree.insert(exact hint)", M, K == CK_TREAP ? depth(a, n + 1) + 3 : 2, n);
        put(a, p, id);
      }
      if ((STRICT || K == CK_TREAP) && !mid) { Meter S; S.l = (u64)links; COST("tree.insert(hint) run", S, k + lg((double)(n0 + k)), n0 + k); }
      break; }
    case CT_POS: {
      bool back = s.d & 1; u32 k = 0; double links = 0; size_t n0 = n;
      for (; k < s.b; ++k) {
        int id = cp.get(); if (id < 0) break; n = A.size();
        int kv = back ? (n ? key(A.back()) + (U ? 1 : (int)r.below(2)) : 0) : (n ? key(A[0]) - (U ? 1 : (int)r.below(2)) : 0);
        cp.P.rekey(id, kv, cp.P.prio[id]);
        It h = at(a, back ? n : 0); bool ib = s.d & 2;
        MEASURE(M, if (ib) x.insert_before(h, e(id)); else if (back) x.push_back(e(id)); else x.push_front(e(id))); links += (double)M.l;
        TCOST("positional insert", M, logn(a), n); CALLS("tree.positional insert", M, K == CK_TREAP ? depth(a, n + 1) + 1 : 0, n);
        put(a, back ? n : 0, id);
      }
      if (STRICT || K == CK_TREAP) { Meter S; S.l = (u64)links; COST("tree.positional insert run", S, k + lg((double)(n0 + k)), n0 + k); }
      break; }
    case CT_CHECK: if constexpr (U) {
      int id = cp.get(); if (id < 0) return; int k = key(id); size_t p = lower(a, k); bool dup = p < n && key(A[p]) == k, ok; typename C::insert_commit_data cd;
      bool hint = s.b & 1; It h = at(a, p);
      E &pe = e(id);
      auto key_of = [&]() -> const KT & { if constexpr (KOV) return pe.key; else return pe; };
      if constexpr (K == CK_TREAP) {
        auto prio_of = [&]() -> const typename C::priority_type & { return pe; };
        MEASURE(M, ok = hint ? x.insert_check(h, key_of(), prio_of(), cd).second : x.insert_check(key_of(), prio_of(), cd).second);
        TCOST("insert_check", M, L, n); TCALLS("insert_check", M, 2 * D + 3, n);
      } else {
        MEASURE(M, ok = hint ? x.insert_check(h, key_of(), cd).second : x.insert_check(key_of(), cd).second);
        TCOST("insert_check", M, L, n); TCALLS("insert_check", M, D + 3, n); if (hint && !dup && K != CK_SPLAY) CALLS("tree.insert_check(exact hint)", M, 2, n);
      }
      if (ok == dup) fail("wrong-result", "insert_check reported %d", ok);
      if (!ok) { cp.put(id); return; }
      MEASURE(M2, x.insert_commit(pe, cd)); TCOST("insert_commit", M2, L, n); CALLS("tree.insert_commit", M2, 0, n);
      put(a, p, id); } break;
    case CT_ERASE_IT: { if (!n) return; size_t p = s.b % n; u64 d = 0; It i = at(a, p);
      MEASURE(M, if (s.c & 1) x.erase(i); else x.erase_and_dispose(i, CostDisposer{&d})); TCOST("erase(it)", M, L, n); CALLS("tree.erase(it)", M, K == CK_TREAP ? 2 * D + 2 : 0, n); erase_model(a, p, p + 1); break; }
    case CT_DRAIN: {                      // erase one by one from one end
      double links = 0; u32 k = 0; size_t n0 = n; bool back = s.d & 1;
      for (; k < s.b && A.size(); ++k) { n = A.size(); It i = at(a, back ? n - 1 : 0); MEASURE(M, x.erase(i)); links += (double)M.l; TCOST("erase(it)", M, logn(a), n); CALLS("tree.erase(it)", M, K == CK_TREAP ? 2 * depth(a, n) + 2 : 0, n); erase_model(a, back ? n - 1 : 0, back ? n : 1); }
      if (STRICT) { Meter S; S.l = (u64)links; COST("tree.drain", S, k + lg((double)n0), n0); }
      break; }
    case CT_ERASE_KEY: {
      int k = (int)(s.b % (u32)keyrange); if (n && (s.c & 1)) k = key(A[s.b % n]); size_t i = lower(a, k), j = upper(a, k), got = 0; u64 d = 0; HKey h{k, 1};
      E pe; pe.key = k;
      auto key_of = [&]() -> const KT & { if constexpr (KOV) return pe.key; else return pe; };
      MEASURE(M, switch ((s.c >> 1) % 4) { case 0: got = x.erase(key_of()); break; case 1: got = x.erase_and_dispose(key_of(), CostDisposer{&d}); break; case 2: got = x.erase(h, HCmp()); break; default: got = x.erase_and_dispose(h, HCmp(), CostDisposer{&d}); });
      if (got != j - i) fail("wrong-result", "erase(key) returned %zu, expected %zu", got, j - i);
      TCOST("erase(key)", M, L + (double)got * (STRICT ? 1 : L), n); TCALLS("erase(key)", M, 2 * D + 4 + (K == CK_TREAP ? (double)got * (2 * D + 2) : 0), n); erase_model(a, i, j); break; }
    case CT_ERASE_RANGE: { size_t i = s.b % (n + 1), j = i + s.c % (n - i + 1); if (s.d & 2) j = std::min(n, i + 1 + j % 8); u64 d = 0; It f = at(a, i), l = at(a, j);
      MEASURE(M, if (s.d & 1) x.erase(f, l); else x.erase_and_dispose(f, l, CostDisposer{&d})); TCOST("erase(range)", M, L + (double)(j - i) * (STRICT ? 1 : L), n); CALLS("tree.erase(range)", M, K == CK_TREAP ? (double)(j - i) * (2 * D + 2) : 0, n); erase_model(a, i, j); break; }
    case CT_FIND: case CT_CONSTFIND: {
      if (s.op == CT_CONSTFIND && K == CK_SPLAY) return;
      const C &cx = x; int k = (int)(s.b % (u32)keyrange); if (n && (s.c & 1)) k = key(A[s.b % n]); size_t i = lower(a, k), j = upper(a, k); bool cst = s.op == CT_CONSTFIND; bool het = s.c & 2; HKey h{k, 1};
      E pe; pe.key = k; bool hit = false;
      auto key_of = [&]() -> const KT & { if constexpr (KOV) return pe.key; else return pe; };
      switch (s.d % 3) {
      case 0: { MEASURE(M, if (cst) hit = het ? cx.find(h, HCmp()) != cx.end() : cx.find(key_of()) != cx.end(); else hit = het ? x.find(h, HCmp()) != x.end() : x.find(key_of()) != x.end()); TCOST("find", M, L, n); TCALLS("find", M, D + 2, n); if (hit != (i != j)) fail("wrong-result", "find"); break; }
      case 1: { const E *res = nullptr; MEASURE(M, if (cst) { auto q = het ? cx.lower_bound(h, HCmp()) : cx.lower_bound(key_of()); if (q != cx.end()) res = &*q; } else { auto q = het ? x.lower_bound(h, HCmp()) : x.lower_bound(key_of()); if (q != x.end()) res = &*q; }); TCOST("lower_bound", M, L, n); TCALLS("lower_bound", M, D + 1, n); if (res != (i < n ? &e(A[i]) : nullptr)) fail("wrong-result", "lower_bound"); break; }
      default: { const E *res = nullptr; MEASURE(M, if (cst) { auto q = het ? cx.upper_bound(h, HCmp()) : cx.upper_bound(key_of()); if (q != cx.end()) res = &*q; } else { auto q = het ? x.upper_bound(h, HCmp()) : x.upper_bound(key_of()); if (q != x.end()) res = &*q; }); TCOST("upper_bound", M, L, n); TCALLS("upper_bound", M, D + 1, n); if (res != (j < n ? &e(A[j]) : nullptr)) fail("wrong-result", "upper_bound"); break; }
      }
      break; }
    case CT_RANGEQ: {
      const C &cx = x; int k = (int)(s.b % (u32)keyrange); if (n && (s.c & 1)) k = key(A[s.b % n]); size_t i = lower(a, k), j = upper(a, k); bool cst = K != CK_SPLAY && (s.c & 4), het = s.c & 2; HKey h{k, 1};
      E pe; pe.key = k;
      auto key_of = [&]() -> const KT & { if constexpr (KOV) return pe.key; else return pe; };
      if (s.d & 1) { MEASURE(M, if (cst) { if (het) cx.equal_range(h, HCmp()); else cx.equal_range(key_of()); } else { if (het) x.equal_range(h, HCmp()); else x.equal_range(key_of()); }); TCOST("equal_range", M, L, n); TCALLS("equal_range", M, 2 * D + 3, n); }
      else if (s.d & 2) { size_t got; MEASURE(M, if (cst) got = het ? cx.count(h, HCmp()) : cx.count(key_of()); else got = het ? x.count(h, HCmp()) : x.count(key_of())); TCOST("count", M, L + (double)(j - i), n); TCALLS("count", M, 2 * D + 3, n); if (got != j - i) fail("wrong-result", "count"); }
      else { E p2; p2.key = k + (int)(s.d % 50) + 1;
        auto key2 = [&]() -> const KT & { if constexpr (KOV) return p2.key; else return p2; };
        MEASURE(M, x.bounded_range(key_of(), key2(), s.d & 4, s.d & 8)); TCOST("bounded_range", M, L, n); TCALLS("bounded_range", M, 2 * D + 4, n); }
      break; }
    case CT_ACCESS: {
      const C &cx = x; size_t z = 0;
      MEASURE(M, z += cx.begin() != cx.end(); z += cx.cbegin() != cx.cend(); z += x.begin() != x.end(); z += !cx.empty()); COST("tree.begin/end/empty", M, 0, n);
      MEASURE(M2, z += cx.size() == n); if (CTS || K == CK_SG) COST("tree.size", M2, 0, n); else COST("tree.size(linear)", M2, n, n);
      if (n) { E &q = e(A[s.b % n]); MEASURE(M3, z += x.iterator_to(q) != x.end(); z += cx.iterator_to(q) != cx.end()); COST("tree.iterator_to", M3, 0, n); MEASURE(M4, z += &*cx.begin() == &e(A[0])); COST("tree.front", M4, 0, n);
        MEASURE(M5, z += &*cx.rbegin() == &e(A.back())); COST("tree.rbegin", M5, K == CK_SPLAY || K == CK_BS ? n : 4 * logn(a), n); }
      if constexpr (K == CK_TREAP) if (n) { MEASURE(M6, z += &*cx.top() == &*cx.top()); COST("treap.top", M6, 0, n); }
      lognum(z); break; }
    case CT_ITERATE: { const C &cx = x; size_t z = 0; MEASURE(M, for (auto i = cx.begin(); i != cx.end(); ++i) ++z); COST("tree.iterate", M, n, n); MEASURE(M2, for (auto i = cx.rbegin(); i != cx.rend(); ++i) ++z); COST("tree.iterate(reverse)", M2, n, n); if (z != 2 * n) fail("contents", "iteration visits %zu elements, expected %zu", z, 2 * n); break; }
    case CT_CLEAR: { u64 d = 0; MEASURE(M, if (s.b & 1) x.clear(); else x.clear_and_dispose(CostDisposer{&d})); if (!SAFE && (s.b & 1)) COST("tree.clear(normal_link)", M, 0, n); else COST("tree.clear", M, n, n); CALLS("tree.clear", M, 0, n); release(a); break; }
    case CT_CLONE: {
      if (cp.freel.size() + A.size() < B.size()) return;
      vec<int> nw; u64 d = 0; { Quiet q; x.clear(); } release(a); n = B.size();
      MEASURE(M, x.clone_from(y, [&](const E &v) { int i = cp.get(); cp.P.rekey(i, v.key, v.prio); nw.push_back(i); return cp.P.ptr(i); }, CostDisposer{&d})); COST("tree.clone_from", M, n, n); CALLS("tree.clone_from", M, 0, n);
      A = nw; if (U) std::sort(A.begin(), A.end(), [&](int i, int j) { return key(i) < key(j); }); maxn[a] = std::max(maxn[b], n); credit += (double)n * lg((double)n);
      if (!U) { Quiet q; A.clear(); for (auto it = x.begin(); it != x.end(); ++it) A.push_back(cp.P.id_fast(&*it)); }
      break; }
    case CT_SWAP: { MEASURE(M, if (s.b & 1) x.swap(y); else { using std::swap; swap(x, y); }); COST("tree.swap", M, 0, n + B.size()); CALLS("tree.swap", M, 0, n); A.swap(B); std::swap(maxn[0], maxn[1]); break; }
    case CT_MOVE: { C &t = c(2); MEASURE(M, t = boost::move(x); x = boost::move(t)); COST("tree.move", M, 0, n); CALLS("tree.move", M, 0, n); maxn[0] = maxn[1] = std::max(maxn[0], maxn[1]); break; }
    case CT_MERGE: {
      size_t k = B.size(); double dd = depth(a, n + k); size_t tot = n + k; maxn[a] = std::max(maxn[a], tot); dd = depth(a, tot);
      MEASURE(M, x.merge(y)); TCOST("merge", M, (double)k * (L + lg((double)tot)), tot); TCALLS("merge", M, (double)k * ((K == CK_TREAP ? 3 : 1) * dd + 4), tot);
      vec<int> left; for (int id : B) { size_t p = U ? lower(a, key(id)) : upper(a, key(id)); if (U && p < A.size() && key(A[p]) == key(id)) left.push_back(id); else A.insert(A.begin() + p, id); }
      B.swap(left); maxn[a] = std::max(maxn[a], A.size());
      if (!U) { Quiet q; A.clear(); for (auto it = x.begin(); it != x.end(); ++it) A.push_back(cp.P.id_fast(&*it)); }
      break; }
    case CT_INSERT_RANGE: case CT_CTOR_RANGE: {
      bool ctor = s.op == CT_CTOR_RANGE, srt = s.d & 1; if (ctor) { Quiet q; x.clear(); release(a); n = 0; }
      vec<int> ids; vec<E *> v; int base = n ? key(A.back()) + 1 : 0;
      for (u32 k = 0; k < s.b; ++k) { int id = cp.get(); if (id < 0) break; cp.P.rekey(id, srt ? base + (int)k : (int)r.below((u32)keyrange), cp.P.prio[id]); ids.push_back(id); v.push_back(cp.P.ptr(id)); }
      size_t k = ids.size(); maxn[a] = std::max(maxn[a], n + k);
      Meter M;
      if (ctor) { x.~C(); new (&x) C(PtrIter<E>(v.data()), PtrIter<E>(v.data() + k)); }
      else x.insert(PtrIter<E>(v.data()), PtrIter<E>(v.data() + k));
      M.stop();
      bool lin = srt && (ctor || n == 0 || !U);      // appended in order behind the end
      if (lin && STRICT) { COST("tree.insert(sorted range)", M, k, n + k); CALLS("tree.insert(sorted range)", M, 2 * k + 2, n + k); }
      else if (lin && K == CK_TREAP) { COST("treap.insert(sorted range)", M, k + lg((double)n), n + k); }
      else { TCOST("insert(range)", M, (double)k * lg((double)(n + k)), n + k); TCALLS("insert(range)", M, (double)k * ((K == CK_TREAP ? 2 : 1) * depth(a, n + k) + 3), n + k); }
      for (int id : ids) { size_t p = U ? lower(a, key(id)) : upper(a, key(id)); if (U && p < A.size() && key(A[p]) == key(id)) cp.put(id); else A.insert(A.begin() + p, id); }
      maxn[a] = std::max(maxn[a], A.size());
      break; }
    case CT_REPLACE: { if (!n) return; int id = cp.get(); if (id < 0) return; size_t p = s.b % n; cp.P.rekey(id, key(A[p]), cp.P.prio[A[p]]); It i = at(a, p); MEASURE(M, x.replace_node(i, e(id))); COST("tree.replace_node", M, 0, n); CALLS("tree.replace_node", M, 0, n); cp.put(A[p]); A[p] = id; break; }
    case CT_REBALANCE:
      if constexpr (K == CK_BS || K == CK_SG || K == CK_SPLAY) {
        MEASURE(M, x.rebalance()); COST("tree.rebalance", M, n, n); CALLS("tree.rebalance", M, 0, n); credit += (double)n * lg((double)n);
        if (n && K != CK_SPLAY) { E pe; pe.key = key(A[s.b % n]); auto key_of = [&]() -> const KT & { if constexpr (KOV) return pe.key; else return pe; }; MEASURE(M2, x.find(key_of())); COST("tree.find after rebalance", M2, lg((double)n), n); CALLS("tree.find after rebalance", M2, std::log2((double)n) + 3, n); }
      } break;
    case CT_COMPARE: { const C &cx = x, &cy = y; size_t z = 0; MEASURE(M, z += cx == cy; z += cx < cy; z += cx != cy); COST("tree.compare", M, n + B.size(), n + B.size()); lognum(z); break; }
    case CT_SPLAY:
      if constexpr (K == CK_SPLAY) if (n) {
        E pe; pe.key = key(A[s.b % n]); auto key_of = [&]() -> const KT & { if constexpr (KOV) return pe.key; else return pe; };
        It i = at(a, s.b % n); MEASURE(M, if (s.c & 1) x.splay_up(i); else x.splay_down(key_of())); TCOST("splay", M, L, n);
        for (u32 k = 0; k < s.d % 40; ++k) { MEASURE(M2, if (s.c & 2) x.find(key_of()); else x.count(key_of())); TCOST("splay", M2, L, n); if (!(s.c & 2) && !U) break; }
      } break;
    case CT_UNLINK_LEFT: for (u32 k = 0; k < s.b % 8 && K == CK_BS && A.size(); ++k) { n = A.size(); MEASURE(M, x.unlink_leftmost_without_rebalance()); COST("tree.unlink_leftmost", M, n, n); CALLS("tree.unlink_leftmost", M, 0, n); erase_model(a, 0, 1); } break;
    }
  }
  static void run(const Trace &t) {
    static CostTree *w = nullptr; delete w; w = new CostTree; w->start(t);
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i]; g.slot->step = i; g.in_step = true;
      op_begin(ct_opname(s.op)); log("step %u %s a=%u b=%u c=%u d=%u", i, ct_opname(s.op), s.a, s.b, s.c, s.d);
      w->step(s); lognum(g.derefs);
      ++g.slot->steps; ++g.slot->op_done;
      u64 h = mix(w->m[0].size(), hash_str(Cfg::name())); h = mix(h, w->m[1].size() * 64 + s.op); g.states.add(h);
    }
    w->full_check();
    for (int i = 0; i < 3; ++i) w->c(i).~C();
  }
  static void gen(Rng &r, const Mode &, Trace &t) {
    u32 n = cost_size(r); if (K == CK_BS) n = 1 + n % 250;
    t.params = {2 * n + 8, r.chance(1, 3) ? r.range(1, 8) : r.range(1, 4 * n)};
    OpMix w(CT_NOPS); static const u32 base[CT_NOPS] = {2, 12, 3, 3, 5, 10, 6, 3, 14, 8, 4, 4, 2, 1, 2, 2, 1, 2, 2, 1, 3, 2, 1, 4, 1, 2};
    for (u32 i = 0; i < CT_NOPS; ++i) w.set(i, base[i]);
    w.swarm(r);
    for (u32 a = 0; a < 2; ++a) { Step s; s.op = CT_BULK; s.a = a; s.b = n; s.d = r.below(1u << 20); s.c = r.below(65536); t.steps.push_back(s); }
    int k = (int)r.range(10, 60);
    for (int i = 0; i < k; ++i) {
      Step s; s.op = w.pick(r); s.a = r.below(2); s.b = r.below(1u << 20); s.c = r.below(1u << 20); s.d = r.below(1u << 20);
      if (s.op == CT_BULK || s.op == CT_HINT || s.op == CT_POS || s.op == CT_INSERT_RANGE || s.op == CT_CTOR_RANGE || s.op == CT_DRAIN) s.b %= 1 + n;
      t.steps.push_back(s);
    }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "cost", &gen, &run, &ct_opname}; }
};
} // namespace sim

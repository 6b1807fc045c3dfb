// Cost engine for the unordered containers.
#pragma once
#include "cost.hpp"
#include "hash_engine.hpp"
namespace sim {
enum CHOp { CH_BULK, CH_INSERT, CH_CHECK, CH_ERASE_IT, CH_ERASE_KEY, CH_ERASE_RANGE, CH_FIND, CH_COUNT, CH_RANGE, CH_ACCESS, CH_BUCKET, CH_ITERATE, CH_CLEAR, CH_REHASH, CH_FULL_REHASH, CH_INCR, CH_INCR_BT,
  CH_CLONE, CH_SWAP, CH_MOVE, CH_INSERT_RANGE, CH_NOPS };
inline const char *ch_opname(u32 o) {
  static const char *n[] = {"bulk insert", "insert", "insert_check+commit", "erase(it)", "erase(key)", "erase(range)", "find", "count", "equal_range", "access", "bucket api", "iterate", "clear", "rehash", "full_rehash", "incremental_rehash", "incremental_rehash(array)",
    "clone_from", "swap", "move", "insert(range)"};
  return o < CH_NOPS ? n[o] : "?";
}
struct Counts { u64 h, q, h0, q0; Counts() : h(0), q(0), h0(g.ncalls[F_HASH]), q0(g.ncalls[F_EQ]) {} void stop() { h = g.ncalls[F_HASH] - h0; q = g.ncalls[F_EQ] - q0; } };
#define HMEASURE(M, ...) Meter M; Counts M##c; { __VA_ARGS__; } M.stop(); M##c.stop()
#define HCALLS(NAME, M, HASHES, EQS, N) do { if (M##c.h > (u64)(HASHES)) fail("cost", "%s: %llu hash function calls for a container of %zu elements, allowed %llu", NAME, (unsigned long long)M##c.h, (size_t)(N), (unsigned long long)(HASHES)); \
  if (M##c.q > (u64)(EQS)) fail("cost", "%s: %llu equality calls for a container of %zu elements, allowed %llu", NAME, (unsigned long long)M##c.q, (size_t)(N), (unsigned long long)(EQS)); } while (0)
template <class Cfg> struct CostHash {
  typedef typename Cfg::E E; typedef typename Cfg::C C; typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::bucket_type Bucket; typedef typename C::bucket_ptr BP; typedef typename C::bucket_traits BT; typedef typename C::size_type Sz; typedef typename C::key_type Key;
  static const bool U = Cfg::unique, SAFE = Cfg::safe, CT = C::constant_time_size, CACHE = C::cache_begin, STORE = C::store_hash, INC = C::incremental, POW2 = C::power_2_buckets, FMOD = C::fastmod_buckets, OPTM = C::optimize_multikey, CMPH = C::compare_hash && C::store_hash;
  static const u32 OVER = (u32)C::bucket_overhead;
  enum { NBUF = 4, CAP = 1100 };
  CostPool<E> cp;
  vec<int> m[2], pos, cnt[2], dist[2];     // elements (any order), place of each, multiplicity per key
  size_t coff[3], boff[NBUF]; int user[NBUF], buf[2]; u32 bc[2], split[2];
  int keyrange = 1, kind = 0;
  C &c(int i) { return *(C *)arena_at(coff[i]); }
  E &e(int i) { return cp.P.e(i); }
  int key(int i) { return cp.P.key[i]; }
  BT bt(int b, u32 n) { return BT(bi::pointer_traits<BP>::pointer_to(*(Bucket *)arena_at(boff[b])), (size_t)n + OVER); }
  u32 legal(u32 x) {
    x = 2 + x % 1022;
    if (FMOD) { while (x > 1 && C::suggested_upper_bucket_count((Sz)x) > 1024) x /= 2; return (u32)C::suggested_upper_bucket_count((Sz)x); }
    if (POW2) { u32 p = INC ? 2 : 1; while (p * 2 <= x) p *= 2; return p; }
    return x;
  }
  int free_buf() { for (int b = 0; b < NBUF; ++b) if (user[b] < 0) return b; return -1; }
  void start(const Trace &t) {
    keyrange = (int)t.param(1, 64); kind = (int)t.param(2, 0);
    cp.setup((int)t.param(0, 64), mix(t.seed, 5), keyrange, false);
    pos.resize(t.param(0, 64)); for (int i = 0; i < 2; ++i) cnt[i].resize((size_t)keyrange + 1);
    for (int b = 0; b < NBUF; ++b) { boff[b] = arena_alloc(CAP * sizeof(Bucket), 16); user[b] = -1; }
    for (int i = 0; i < 3; ++i) { coff[i] = arena_alloc(sizeof(C), 16); u32 n = legal((u32)t.param(3 + i, 16)); new (arena_at(coff[i])) C(bt(i, n), HashT(kind, 1), EqT(1)); user[i] = i; if (i < 2) { buf[i] = i; bc[i] = n; split[i] = INC ? n / 2 : n; } }
  }
  void put(int a, int id) { pos[id] = (int)m[a].size(); m[a].push_back(id); ++cnt[a][key(id)]; }
  void take(int a, int id) { int p = pos[id]; m[a][p] = m[a].back(); pos[m[a][p]] = p; m[a].pop_back(); --cnt[a][key(id)]; cp.put(id); }
  // load of the bucket a key falls into: elements, groups, groups (or elements) with the same hash
  struct Load { size_t n = 0, groups = 0, same = 0, count = 0, b = 0, eqs = 0, unit = 0; };
  Load load(int a, int k) {
    Quiet q; Load l; C &x = c(a); l.b = bucket_of(a, k); l.count = (size_t)cnt[a][k];
    int last = -1; for (auto i = x.begin((Sz)l.b), z = x.end((Sz)l.b); i != z; ++i) { int kk = i->key; ++l.n; bool ng = kk != last; l.groups += ng; if (hash_val(kind, kk, 1) == hash_val(kind, k, 1)) l.same += OPTM ? ng : 1; last = kk; }
    l.unit = OPTM ? l.groups : l.n; l.eqs = CMPH ? l.same : l.unit;
    return l;
  }
  Load load_at(int a, size_t b) { Quiet q; Load l; C &x = c(a); l.b = b; for (auto i = x.begin((Sz)b), z = x.end((Sz)b); i != z; ++i) ++l.n; return l; }
  size_t bucket_of(int a, int k) { Quiet q; size_t b; with_key(k, [&](const Key &y) { b = c(a).bucket(y); }); return b; }
  template <class F> void with_key(int k, F f) { if constexpr (std::is_same<Key, int>::value) f(k); else { E pe; pe.key = k; f((const E &)pe); } }
  void full_check() {
    Quiet q;
    for (int a = 0; a < 2; ++a) { size_t n = 0; for (auto it = c(a).begin(); it != c(a).end(); ++it, ++n) { int id = cp.P.id_fast(&*it); if (id < 0 || n >= m[a].size() || m[a][pos[id]] != id) fail("contents", "container %d holds a wrong element", a); } if (n != m[a].size()) fail("contents", "container %d has %zu elements, expected %zu", a, n, m[a].size()); }
  }
  void release(int a) { for (int i : m[a]) { --cnt[a][key(i)]; cp.put(i); } m[a].clear(); }
  void insert_one(int a, int id) {
    int k = key(id); Load l = load(a, k); size_t n = m[a].size(); bool ok;
    HMEASURE(M, if constexpr (U) ok = c(a).insert(e(id)).second; else { c(a).insert(e(id)); ok = true; });
    COST("hash.insert", M, l.unit, n); HCALLS("hash.insert", M, 1, l.eqs, n);
    if (ok != (!U || !l.count)) fail("wrong-result", "insert reported %d", ok);
    if (ok) put(a, id); else cp.put(id);
  }
  size_t first_bucket(int a) { if (!CACHE) return 0; Quiet q; C &x = c(a); return x.begin() == x.end() ? bc[a] : bucket_of(a, x.begin()->key); }
  It it_of(int a, int id) { Quiet q; return c(a).iterator_to(e(id)); }
  void step(const Step &s) {
    int a = (int)(s.a & 1), b = 1 - a; C &x = c(a), &y = c(b); vec<int> &A = m[a], &B = m[b]; size_t n = A.size(); Rng r(mix(s.d, s.c));
    int k = (int)(s.b % (u32)keyrange); if (n && (s.c & 1)) k = key(A[s.b % n]);
    size_t fb0 = first_bucket(a);          // a removal may have to look for the new first bucket
    auto emp = [&] { size_t f = first_bucket(a); return CACHE && f > fb0 ? f - fb0 : (size_t)0; };
    switch (s.op) {
    case CH_BULK: for (u32 i = 0; i < s.b; ++i) { int id = cp.get(); if (id < 0) break; insert_one(a, id); } break;
    case CH_INSERT: { int id = cp.get(); if (id < 0) return; insert_one(a, id); break; }
    case CH_CHECK: if constexpr (U) {
      int id = cp.get(); if (id < 0) return; k = key(id); Load l = load(a, k); typename C::insert_commit_data cd; bool ok;
      HMEASURE(M, if (s.b & 1) ok = x.insert_check(k, HashT(kind, 1), EqT(1), cd).second; else with_key(k, [&](const Key &y) { ok = x.insert_check(y, cd).second; }));
      COST("hash.insert_check", M, l.unit, n); HCALLS("hash.insert_check", M, 1, l.eqs, n);
      if (ok != !l.count) fail("wrong-result", "insert_check reported %d", ok);
      if (!ok) { cp.put(id); return; }
      HMEASURE(M2, if (s.b & 2) x.insert_commit(e(id), cd); else x.insert_fast_commit(e(id), cd)); COST("hash.insert_commit", M2, 0, n); HCALLS("hash.insert_commit", M2, 0, 0, n);
      put(a, id); } break;
    case CH_ERASE_IT: { if (!n) return; int id = A[s.b % n]; Load l = load(a, key(id)); It i = it_of(a, id); u64 d = 0;
      HMEASURE(M, if (s.c & 2) x.erase(i); else x.erase_and_dispose(i, CostDisposer{&d})); COST("hash.erase(it)", M, l.n + emp(), n); HCALLS("hash.erase(it)", M, STORE ? 0 : 1, 0, n); take(a, id); break; }
    case CH_ERASE_KEY: { Load l = load(a, k); size_t got = 0; u64 d = 0;
      HMEASURE(M, switch ((s.c >> 1) % 4) { case 0: with_key(k, [&](const Key &y) { got = x.erase(y); }); break; case 1: got = x.erase(HKey{k, 1}, HHashT{kind}, HEqT()); break; case 2: with_key(k, [&](const Key &y) { got = x.erase_and_dispose(y, CostDisposer{&d}); }); break; default: got = x.erase_and_dispose(HKey{k, 1}, HHashT{kind}, HEqT(), CostDisposer{&d}); });
      COST("hash.erase(key)", M, l.unit + l.count + emp(), n); HCALLS("hash.erase(key)", M, 1, CMPH ? l.eqs : l.eqs + l.count + 1, n);
      if (got != l.count) fail("wrong-result", "erase(key) returned %zu, expected %zu", got, l.count);
      for (size_t i = A.size(); i-- > 0;) if (key(A[i]) == k) take(a, A[i]);
      break; }
    case CH_ERASE_RANGE: {
      if (!n) return; vec<int> ord; { Quiet q; for (auto i = x.begin(); i != x.end(); ++i) ord.push_back(cp.P.id_fast(&*i)); }
      size_t i = s.b % (n + 1), j = i + s.c % (n - i + 1); if (s.d & 1) j = std::min(n, i + 1 + s.c % 6); u64 d = 0; size_t fb = i < n ? load(a, key(ord[i])).n : 0, lb = j < n ? load(a, key(ord[j])).n : 0;
      CIt f = i < n ? CIt(it_of(a, ord[i])) : x.cend(), z = j < n ? CIt(it_of(a, ord[j])) : x.cend();
      HMEASURE(M, if (s.d & 2) x.erase(f, z); else x.erase_and_dispose(f, z, CostDisposer{&d})); COST("hash.erase(range)", M, (j - i) + fb + lb + bc[a], n); HCALLS("hash.erase(range)", M, STORE ? 0 : 2, 0, n);
      for (size_t t = i; t < j; ++t) take(a, ord[t]);
      break; }
    case CH_FIND: { Load l = load(a, k); bool hit = false; const C &cx = x;
      HMEASURE(M, switch ((s.c >> 1) % 4) { case 0: with_key(k, [&](const Key &y) { hit = x.find(y) != x.end(); }); break; case 1: with_key(k, [&](const Key &y) { hit = cx.find(y) != cx.end(); }); break; case 2: hit = x.find(HKey{k, 1}, HHashT{kind}, HEqT()) != x.end(); break; default: hit = cx.find(HKey{k, 1}, HHashT{kind}, HEqT()) != cx.end(); });
      COST("hash.find", M, l.unit, n); HCALLS("hash.find", M, 1, l.eqs, n); if (hit != (l.count > 0)) fail("wrong-result", "find"); break; }
    case CH_COUNT: { Load l = load(a, k); size_t got = 0; const C &cx = x;
      HMEASURE(M, if (s.c & 2) with_key(k, [&](const Key &y) { got = cx.count(y); }); else got = cx.count(HKey{k, 1}, HHashT{kind}, HEqT())); COST("hash.count", M, l.unit + l.count, n); HCALLS("hash.count", M, 1, CMPH ? l.eqs : l.eqs + 1, n); if (got != l.count) fail("wrong-result", "count"); break; }
    case CH_RANGE: { Load l = load(a, k); const C &cx = x; size_t z = 0;
      HMEASURE(M, switch ((s.c >> 1) % 3) { case 0: with_key(k, [&](const Key &y) { auto p = x.equal_range(y); z += p.first != p.second; }); break; case 1: with_key(k, [&](const Key &y) { auto p = cx.equal_range(y); z += p.first != p.second; }); break; default: { auto p = x.equal_range(HKey{k, 1}, HHashT{kind}, HEqT()); z += p.first != p.second; } });
      COST("hash.equal_range", M, l.unit + l.count + bc[a], n); HCALLS("hash.equal_range", M, 1, CMPH ? l.eqs : l.eqs + 1, n); if (z != (l.count > 0)) fail("wrong-result", "equal_range"); break; }
    case CH_ACCESS: { const C &cx = x; size_t z = 0;
      HMEASURE(M, z += cx.begin() != cx.end(); z += cx.cbegin() != cx.cend(); z += x.begin() != x.end()); if (CACHE) COST("hash.begin(cached)", M, 0, n); else COST("hash.begin", M, bc[a], n); HCALLS("hash.begin", M, 0, 0, n);
      HMEASURE(M2, z += !cx.empty()); if (CACHE || CT) COST("hash.empty", M2, 0, n); else COST("hash.empty(linear)", M2, bc[a], n);
      HMEASURE(M3, z += cx.size() == n); if (CT) COST("hash.size", M3, 0, n); else COST("hash.size(linear)", M3, n + bc[a], n);
      HMEASURE(M4, z += cx.end() == x.end(); z += cx.bucket_count() == bc[a]); COST("hash.end/bucket_count", M4, 0, n);
      if (n) { E &q = e(A[s.b % n]); HMEASURE(M5, z += x.iterator_to(q) != x.end(); z += &*cx.iterator_to(q) == &q; z += &*x.local_iterator_to(q) == &q); COST("hash.iterator_to", M5, 0, n); HCALLS("hash.iterator_to", M5, 0, 0, n); }
      lognum(z); break; }
    case CH_BUCKET: { const C &cx = x; size_t nb; { Quiet q; nb = split[a]; } size_t bk = s.b % nb; Load l = load_at(a, bk); size_t z = 0;
      HMEASURE(M, z = cx.bucket_size((Sz)bk)); COST("hash.bucket_size", M, l.n, n); if (z != l.n) fail("wrong-result", "bucket_size"); HCALLS("hash.bucket_size", M, 0, 0, n);
      HMEASURE(M2, z += x.begin((Sz)bk) != x.end((Sz)bk); z += cx.cbegin((Sz)bk) != cx.cend((Sz)bk)); COST("hash.begin(n)/end(n)", M2, 0, n);
      HMEASURE(M3, with_key(k, [&](const Key &y) { z += cx.bucket(y); }); z += cx.bucket(HKey{k, 1}, HHashT{kind})); COST("hash.bucket", M3, 0, n); HCALLS("hash.bucket", M3, 2, 0, n); lognum(z); break; }
    case CH_ITERATE: { const C &cx = x; size_t z = 0; HMEASURE(M, for (auto i = cx.begin(); i != cx.end(); ++i) ++z); COST("hash.iterate", M, n + bc[a], n); HCALLS("hash.iterate", M, STORE ? 0 : n, 0, n); if (z != n) fail("contents", "iteration visits %zu elements, expected %zu", z, n); break; }
    case CH_CLEAR: { u64 d = 0; HMEASURE(M, if (s.b & 1) x.clear(); else x.clear_and_dispose(CostDisposer{&d})); if (!SAFE && (s.b & 1)) COST("hash.clear(normal_link)", M, bc[a], n); else COST("hash.clear", M, n + bc[a], n); HCALLS("hash.clear", M, 0, 0, n); release(a); break; }
    case CH_REHASH: { u32 nb = legal(s.b); bool same = (s.c & 3) == 0; int nbuf = same ? buf[a] : free_buf(); if (nbuf < 0) return; u32 ob = bc[a];
      BT t = bt(nbuf, nb);
      HMEASURE(M, x.rehash(t)); COST("hash.rehash", M, n + ob + nb, n); HCALLS("hash.rehash", M, STORE ? 0 : same ? 2 * n : n, STORE || U ? 0 : 2 * n, n);
      if (!same) { user[buf[a]] = -1; user[nbuf] = a; buf[a] = nbuf; } bc[a] = nb; { Quiet q; split[a] = (u32)split_count(a); } break; }
    case CH_FULL_REHASH: { HMEASURE(M, x.full_rehash()); COST("hash.full_rehash", M, n + bc[a], n); HCALLS("hash.full_rehash", M, 2 * n, U ? 0 : 2 * n, n); { Quiet q; split[a] = (u32)split_count(a); } break; }
    case CH_INCR: if constexpr (INC) { bool grow = s.b & 1; for (u32 i = 0; i < s.c % 40; ++i) {
      bool can = grow ? split[a] < bc[a] : split[a] > bc[a] / 2; size_t w = !can ? 0 : grow ? load_at(a, split[a] - bc[a] / 2).n : load_at(a, split[a] - 1).n + load_at(a, split[a] - 1 - bc[a] / 2).n; bool ok;
      HMEASURE(M, ok = x.incremental_rehash(grow)); COST("hash.incremental_rehash", M, w + emp(), n); HCALLS("hash.incremental_rehash", M, STORE ? 0 : w, 0, n);
      if (ok != can) fail("wrong-result", "incremental_rehash"); if (ok) split[a] += grow ? 1 : -1; } } break;
    case CH_INCR_BT: if constexpr (INC) { bool up = split[a] == bc[a]; u32 nb = up ? bc[a] * 2 : bc[a] / 2; if (nb < 2 || nb > 1024 || (!up && split[a] != nb)) return; int nbuf = (s.c & 1) ? buf[a] : free_buf(); if (nbuf < 0) return; BT t = bt(nbuf, nb); bool ok;
      HMEASURE(M, ok = x.incremental_rehash(t)); COST("hash.incremental_rehash(array)", M, bc[a] + nb + n, n); HCALLS("hash.incremental_rehash(array)", M, 0, 0, n);
      if (!ok) fail("wrong-result", "incremental_rehash(array)"); if (nbuf != buf[a]) { user[buf[a]] = -1; user[nbuf] = a; buf[a] = nbuf; } bc[a] = nb; } break;
    case CH_CLONE: {
      if (cp.freel.size() + A.size() < B.size()) return; { Quiet q; x.clear(); } release(a); n = B.size(); vec<int> nw; u64 d = 0;
      HMEASURE(M, x.clone_from(y, [&](const E &v) { int i = cp.get(); cp.P.rekey(i, v.key, v.prio); nw.push_back(i); return cp.P.ptr(i); }, CostDisposer{&d}));
      size_t dup = 0; if (!U) dup = n; COST("hash.clone_from", M, n + bc[a] + bc[b] , n); HCALLS("hash.clone_from", M, STORE ? 0 : 2 * n, 2 * dup, n);
      for (int i : nw) put(a, i); { Quiet q; split[a] = (u32)split_count(a); } break; }
    case CH_SWAP: { HMEASURE(M, if (s.b & 1) x.swap(y); else { using std::swap; swap(x, y); }); COST("hash.swap", M, 0, n); HCALLS("hash.swap", M, 0, 0, n); A.swap(B); cnt[0].swap(cnt[1]); std::swap(bc[0], bc[1]); std::swap(split[0], split[1]); std::swap(buf[0], buf[1]); break; }
    case CH_MOVE: { HMEASURE(M, C t(boost::move(x)); x.~C(); new (&x) C(boost::move(t))); COST("hash.move", M, 0, n); HCALLS("hash.move", M, 0, 0, n); break; }
    case CH_INSERT_RANGE: {
      vec<int> ids; vec<E *> v; size_t w = 0, q = 0; for (u32 i = 0; i < s.b % 40; ++i) { int id = cp.get(); if (id < 0) break; cp.P.rekey(id, (int)r.below((u32)keyrange), 0); Load l = load(a, key(id)); w += l.unit + i; q += l.eqs + i; ids.push_back(id); v.push_back(cp.P.ptr(id)); }
      HMEASURE(M, x.insert(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()))); COST("hash.insert(range)", M, w + v.size(), n); HCALLS("hash.insert(range)", M, v.size(), q, n);
      for (int id : ids) if (U && cnt[a][key(id)]) cp.put(id); else put(a, id);
      break; }
    }
  }
  size_t split_count(int a) { if constexpr (INC) return c(a).split_count(); else return bc[a]; }
  static void run(const Trace &t) {
    static CostHash *w = nullptr; delete w; w = new CostHash; w->start(t);
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i]; g.slot->step = i; g.in_step = true;
      op_begin(ch_opname(s.op)); log("step %u %s a=%u b=%u c=%u d=%u", i, ch_opname(s.op), s.a, s.b, s.c, s.d);
      w->step(s); lognum(g.derefs);
      ++g.slot->steps; ++g.slot->op_done;
      u64 h = mix(w->m[0].size(), hash_str(Cfg::name())); h = mix(h, w->bc[0] * 4096ull + w->m[1].size() * 64 + s.op); g.states.add(h);
    }
    w->full_check();
    for (int i = 0; i < 3; ++i) w->c(i).~C();
  }
  static void gen(Rng &r, const Mode &, Trace &t) {
    u32 n = 1 + cost_size(r) % 700; u32 kind = r.below(8) < 6 ? r.below(2) : r.range(2, 5); if ((kind == 2 || kind == 3)) n = 1 + n % 120;
    t.params = {2 * n + 8, r.chance(1, 3) ? r.range(1, 12) : r.range(1, 4 * n), kind, r.chance(1, 3) ? r.below(1024) : r.below(2 * n + 2), r.below(n + 1), 8};
    OpMix w(CH_NOPS); static const u32 base[CH_NOPS] = {1, 14, 6, 10, 6, 3, 12, 6, 6, 5, 5, 2, 1, 4, 2, 6, 4, 2, 2, 2, 3};
    for (u32 i = 0; i < CH_NOPS; ++i) w.set(i, base[i]);
    w.swarm(r);
    for (u32 a = 0; a < 2; ++a) { Step s; s.op = CH_BULK; s.a = a; s.b = n; s.d = r.below(1u << 20); s.c = r.below(65536); t.steps.push_back(s); }
    int k = (int)r.range(10, 60);
    for (int i = 0; i < k; ++i) { Step s; s.op = w.pick(r); s.a = r.below(2); s.b = r.below(1u << 20); s.c = r.below(1u << 20); s.d = r.below(1u << 20); if (s.op == CH_BULK) s.b %= 1 + n; t.steps.push_back(s); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "cost", &gen, &run, &ch_opname}; }
};
} // namespace sim

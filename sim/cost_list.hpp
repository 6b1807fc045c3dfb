// Cost engine for list and slist.
#pragma once
#include "cost.hpp"
namespace sim {
enum CLOp { CL_PUSH, CL_INSERT, CL_ERASE, CL_POP, CL_ERASE_RANGE, CL_ACCESS, CL_SWAP, CL_SPLICE_ALL, CL_SPLICE_ONE, CL_SPLICE_RANGE, CL_REVERSE, CL_SORT, CL_MERGE, CL_REMOVE_IF, CL_UNIQUE,
  CL_CLEAR, CL_CLONE, CL_SHIFT, CL_ITERATE, CL_ASSIGN, CL_MOVE, CL_NOPS };
inline const char *cl_opname(u32 o) {
  static const char *n[] = {"push", "insert", "erase", "pop", "erase_range", "access", "swap", "splice(list)", "splice(element)", "splice(range)", "reverse", "sort", "merge", "remove_if", "unique", "clear", "clone_from", "shift", "iterate", "assign", "move"};
  return o < CL_NOPS ? n[o] : "?";
}
template <class Cfg> struct CostList {
  typedef typename Cfg::E E; typedef typename Cfg::C C; typedef typename C::iterator It;
  static const bool SL = Cfg::slist, LAST = Cfg::last, CTS = C::constant_time_size, SAFE = Cfg::safe;
  CostPool<E> cp;
  vec<int> m[2];
  size_t coff[3];
  C &c(int i) { return *(C *)arena_at(coff[i]); }
  E &e(int i) { return cp.P.e(i); }
  void start(const Trace &t) {
    cp.setup((int)t.param(0, 64), mix(t.seed, 5), (int)t.param(1, 64), false);
    for (int i = 0; i < 3; ++i) { coff[i] = arena_alloc(sizeof(C), 16); new (arena_at(coff[i])) C(); }
  }
  It before(int ci, size_t p) { if constexpr (SL) return p ? c(ci).iterator_to(e(m[ci][p - 1])) : c(ci).before_begin(); else return It(); }
  It at(int ci, size_t p) { return p < m[ci].size() ? c(ci).iterator_to(e(m[ci][p])) : c(ci).end(); }
  void full_check() {
    Quiet q;
    for (int k = 0; k < 2; ++k) {
      size_t i = 0;
      for (auto it = c(k).begin(); it != c(k).end(); ++it, ++i) if (i >= m[k].size() || &*it != &e(m[k][i])) fail("contents", "list %d differs from the model at position %zu", k, i);
      if (i != m[k].size()) fail("contents", "list %d has %zu elements, expected %zu", k, i, m[k].size());
    }
  }
  void mark(vec<int> &v) { for (int i : v) cp.put(i); v.clear(); }
  void msort(vec<int> &v) { vec<std::pair<int, int>> o; for (size_t i = 0; i < v.size(); ++i) o.push_back({cp.P.key[v[i]], (int)i}); std::sort(o.begin(), o.end()); vec<int> w; for (auto &x : o) w.push_back(v[x.second]); v.swap(w); }
  void step(const Step &s) {
    int a = (int)(s.a & 1), b = 1 - a;
    C &x = c(a), &y = c(b);
    vec<int> &A = m[a], &B = m[b];
    size_t n = A.size();
    switch (s.op) {
    case CL_PUSH: for (u32 k = 0; k < s.b; ++k) {
      int id = cp.get(); if (id < 0) break;
      bool back = ((s.d >> (k & 7)) & 1) && (!SL || LAST); n = A.size();
      if constexpr (!SL || LAST) { if (back) { MEASURE(M, x.push_back(e(id))); COST("list.push_back", M, 0, n); A.push_back(id); continue; } }
      MEASURE(M, x.push_front(e(id))); COST("list.push_front", M, 0, n); A.insert(A.begin(), id); } break;
    case CL_INSERT: {
      int id = cp.get(); if (id < 0) return; size_t p = s.b % (n + 1);
      if constexpr (SL) { It i = before(a, p); MEASURE(M, x.insert_after(i, e(id))); COST("list.insert", M, 0, n); }
      else { It i = at(a, p); MEASURE(M, x.insert(i, e(id))); COST("list.insert", M, 0, n); }
      A.insert(A.begin() + p, id); break; }
    case CL_ERASE: { if (!n) return; size_t p = s.b % n; u64 d = 0;
      if constexpr (SL) { It i = before(a, p); MEASURE(M, if (s.c & 1) x.erase_after(i); else x.erase_after_and_dispose(i, CostDisposer{&d})); COST("list.erase", M, 0, n); }
      else { It i = at(a, p); MEASURE(M, if (s.c & 1) x.erase(i); else x.erase_and_dispose(i, CostDisposer{&d})); COST("list.erase", M, 0, n); }
      cp.put(A[p]); A.erase(A.begin() + p); break; }
    case CL_POP: for (u32 k = 0; k < s.b && A.size(); ++k) {
      n = A.size();
      if constexpr (!SL) if ((s.d >> (k & 7)) & 1) { MEASURE(M, x.pop_back()); COST("list.pop", M, 0, n); cp.put(A.back()); A.pop_back(); continue; }
      MEASURE(M, x.pop_front()); COST("list.pop", M, 0, n); cp.put(A.front()); A.erase(A.begin()); } break;
    case CL_ERASE_RANGE: { size_t i = s.b % (n + 1), j = i + s.c % (n - i + 1);
      if constexpr (SL) { It f = before(a, i), l = at(a, j); MEASURE(M, x.erase_after(f, l)); COST("list.erase_range", M, j - i, n); }
      else { It f = at(a, i), l = at(a, j); u64 d = 0;
        MEASURE(M, if (s.d % 3 == 0) x.erase(f, l); else if (s.d % 3 == 1) x.erase(f, l, (typename C::size_type)(j - i)); else x.erase_and_dispose(f, l, CostDisposer{&d})); COST("list.erase_range", M, j - i, n); }
      for (size_t k = i; k < j; ++k) cp.put(A[k]); A.erase(A.begin() + i, A.begin() + j); break; }
    case CL_ACCESS: {
      const C &cx = x; size_t z = 0;
      MEASURE(M, if (cx.begin() != cx.end()) ++z; if (!cx.empty()) ++z; if (x.begin() != x.end()) ++z; if (cx.cbegin() != cx.cend()) ++z); COST("list.begin/end/empty", M, 0, n);
      if (n) { MEASURE(M2, z += &x.front() == &e(A[0])); COST("list.front", M2, 0, n); E &q = e(A[s.b % n]); MEASURE(M3, z += x.iterator_to(q) != x.end(); z += cx.iterator_to(q) != cx.end()); COST("list.iterator_to", M3, 0, n); }
      if constexpr (!SL || LAST) if (n) { MEASURE(M4, z += &x.back() == &e(A.back())); COST("list.back", M4, 0, n); }
      if constexpr (!SL) { MEASURE(M5, z += x.rbegin() != x.rend(); z += cx.crbegin() != cx.crend()); COST("list.rbegin/rend", M5, 0, n); }
      { MEASURE(M6, z += cx.size() == n); if (CTS) COST("list.size", M6, 0, n); else COST("list.size(linear)", M6, n, n); }
      lognum(z); break; }
    case CL_SWAP: { MEASURE(M, if (s.b & 1) x.swap(y); else { using std::swap; swap(x, y); }); COST("list.swap", M, 0, n + B.size()); A.swap(B); break; }
    case CL_MOVE: { C &t = c(2); MEASURE(M, t = boost::move(x); x = boost::move(t)); COST("list.move", M, 0, n); break; }
    case CL_SPLICE_ALL: {
      if constexpr (SL && !LAST) return; size_t p = s.b % (n + 1), k = B.size();
      if constexpr (SL) { It i = before(a, p); MEASURE(M, x.splice_after(i, y)); COST("list.splice(list)", M, 0, n + k); }
      else { It i = at(a, p); MEASURE(M, x.splice(i, y)); COST("list.splice(list)", M, 0, n + k); }
      A.insert(A.begin() + p, B.begin(), B.end()); B.clear(); break; }
    case CL_SPLICE_ONE: {
      if (B.empty()) return; size_t p = s.b % (n + 1), q = s.c % B.size();
      if constexpr (SL) { It i = before(a, p), j = before(b, q); MEASURE(M, x.splice_after(i, y, j)); COST("list.splice(element)", M, 0, n); }
      else { It i = at(a, p), j = at(b, q); MEASURE(M, x.splice(i, y, j)); COST("list.splice(element)", M, 0, n); }
      A.insert(A.begin() + p, B[q]); B.erase(B.begin() + q); break; }
    case CL_SPLICE_RANGE: {
      size_t p = s.b % (n + 1), i = s.c % (B.size() + 1), j = i + (s.d >> 1) % (B.size() - i + 1), k = j - i; bool given = s.d & 1;
      if constexpr (SL) { if (i == j) return; It w = before(a, p), f = before(b, i), l = before(b, j);
        MEASURE(M, if (given) x.splice_after(w, y, f, l, (typename C::size_type)k); else x.splice_after(w, y, f, l)); if (given || !CTS) COST("list.splice(range,n)", M, 0, n); else COST("list.splice(range)", M, k, n); }
      else { It w = at(a, p), f = at(b, i), l = at(b, j);
        MEASURE(M, if (given) x.splice(w, y, f, l, (typename C::size_type)k); else x.splice(w, y, f, l)); if (given || !CTS) COST("list.splice(range,n)", M, 0, n); else COST("list.splice(range)", M, k, n); }
      A.insert(A.begin() + p, B.begin() + i, B.begin() + j); B.erase(B.begin() + i, B.begin() + j); break; }
    case CL_REVERSE: { MEASURE(M, x.reverse()); COST("list.reverse", M, n, n); std::reverse(A.begin(), A.end()); break; }
    case CL_SORT: { MEASURE(M, x.sort(Cmp(0))); COST("list.sort", M, n * lg((double)n) + 300, n); CALLS("list.sort", M, (double)n * lg((double)n) + 4, n); msort(A); break; }
    case CL_MERGE: {
      { Quiet q; x.sort(Cmp(0)); y.sort(Cmp(0)); } msort(A); msort(B);
      size_t k = B.size();
      MEASURE(M, x.merge(y, Cmp(0))); COST("list.merge", M, n + k, n + k); CALLS("list.merge", M, n + k ? n + k - 1 : 0, n + k);
      A.insert(A.end(), B.begin(), B.end()); B.clear(); msort(A); break; }
    case CL_REMOVE_IF: {
      int md = 2 + (int)(s.b % 5), r = (int)(s.c % (u32)md); u64 d = 0;
      auto pred = [&](const E &v) { fcall(F_PRED); return v.key % md == r; };
      MEASURE(M, if (s.d & 1) x.remove_if(pred); else x.remove_and_dispose_if(pred, CostDisposer{&d})); COST("list.remove_if", M, n, n); if (M.f != n) fail("cost", "list.remove_if: %llu predicate calls for %zu elements", (unsigned long long)M.f, n);
      vec<int> w; for (int i : A) if (cp.P.key[i] % md == r) cp.put(i); else w.push_back(i); A.swap(w); break; }
    case CL_UNIQUE: {
      auto pred = [&](const E &u, const E &v) { fcall(F_PRED); return u.key == v.key; };
      MEASURE(M, x.unique(pred)); COST("list.unique", M, n, n); CALLS("list.unique", M, n ? n - 1 : 0, n);
      vec<int> w; for (int i : A) if (w.size() && cp.P.key[w.back()] == cp.P.key[i]) cp.put(i); else w.push_back(i); A.swap(w); break; }
    case CL_CLEAR: { u64 d = 0; MEASURE(M, if (s.b & 1) x.clear(); else x.clear_and_dispose(CostDisposer{&d})); if (!SAFE && (s.b & 1)) COST("list.clear(normal_link)", M, 0, n); else COST("list.clear", M, n, n); mark(A); break; }
    case CL_CLONE: {
      if (cp.freel.size() + A.size() < B.size()) return;
      vec<int> nw; u64 d = 0; size_t old = n;
      { Quiet q; x.clear(); } mark(A); n = B.size();
      MEASURE(M, x.clone_from(y, [&](const E &v) { int i = cp.get(); cp.P.rekey(i, v.key, v.prio); nw.push_back(i); return cp.P.ptr(i); }, CostDisposer{&d})); COST("list.clone_from", M, n, n + old);
      A = nw; break; }
    case CL_SHIFT: {
      u32 k = s.c; if (n < 2) return; size_t kk = k % n;
      MEASURE(M, if (s.b & 1) x.shift_backwards(k); else x.shift_forward(k)); if (SL) COST("slist.shift", M, n + k, n); else COST("list.shift", M, k, n);
      if (s.b & 1) std::rotate(A.begin(), A.end() - kk, A.end()); else std::rotate(A.begin(), A.begin() + kk, A.end()); break; }
    case CL_ITERATE: { const C &cx = x; size_t z = 0; MEASURE(M, for (auto i = cx.begin(); i != cx.end(); ++i) ++z); COST("list.iterate", M, n, n); if (z != n) fail("contents", "iteration visits %zu elements, expected %zu", z, n);
      if constexpr (!SL) { z = 0; MEASURE(M2, for (auto i = cx.rbegin(); i != cx.rend(); ++i) ++z); COST("list.iterate(reverse)", M2, n, n); } break; }
    case CL_ASSIGN: {
      vec<E *> v; vec<int> nw; for (u32 k = 0; k < s.b; ++k) { int id = cp.get(); if (id < 0) break; nw.push_back(id); v.push_back(cp.P.ptr(id)); }
      MEASURE(M, x.assign(PtrIter<E>(v.data()), PtrIter<E>(v.data() + v.size()))); COST("list.assign", M, n + nw.size(), n); mark(A); A = nw; break; }
    }
  }
  static void run(const Trace &t) {
    static CostList *w = nullptr; delete w; w = new CostList; w->start(t);
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i]; g.slot->step = i; g.in_step = true;
      op_begin(cl_opname(s.op)); log("step %u %s a=%u b=%u c=%u d=%u", i, cl_opname(s.op), s.a, s.b, s.c, s.d);
      w->step(s); lognum(g.derefs);
      ++g.slot->steps; ++g.slot->op_done;
      u64 h = mix(w->m[0].size(), hash_str(Cfg::name())); h = mix(h, w->m[1].size() * 64 + s.op); g.states.add(h);
    }
    w->full_check();
    for (int i = 0; i < 3; ++i) w->c(i).~C();
  }
  static void gen(Rng &r, const Mode &, Trace &t) {
    u32 n = cost_size(r);
    t.params = {2 * n + 4, r.chance(1, 3) ? r.range(1, 8) : r.range(1, 4 * n)};
    OpMix w(CL_NOPS); static const u32 base[CL_NOPS] = {10, 10, 8, 3, 3, 10, 4, 5, 6, 8, 3, 5, 4, 2, 2, 1, 2, 5, 3, 2, 3};
    for (u32 i = 0; i < CL_NOPS; ++i) w.set(i, base[i]);
    w.swarm(r);
    for (u32 a = 0; a < 2; ++a) { Step s; s.op = CL_PUSH; s.a = a; s.b = n; s.d = r.below(256); t.steps.push_back(s); }
    int k = (int)r.range(10, 50);
    for (int i = 0; i < k; ++i) { Step s; s.op = w.pick(r); s.a = r.below(2); s.b = r.below(4096); s.c = r.below(4096); s.d = r.below(65536); if (s.op == CL_PUSH) s.b = r.below(n + 1); if (s.op == CL_POP || s.op == CL_ASSIGN) s.b %= 1 + n / 2; t.steps.push_back(s); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "cost", &gen, &run, &cl_opname}; }
};
} // namespace sim

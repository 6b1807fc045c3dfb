// Simulation of the list node algorithms (circular doubly linked, circular singly
// linked, linear singly linked) with node layouts supplied by the user.
// World: three lists (header node + pool nodes); the model is the ring of node ids.
#pragma once
#include "world.hpp"
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>

namespace sim {
struct LRawNode : public Data { LRawNode *nx, *pv; };
struct LRelNode : public Data { sim_ptr<LRelNode> pv, nx; };
struct LEncNode : public Data { int32_t nx, pv; };      // offsets relative to the node
struct LRaw {
  typedef LRawNode node; typedef node *node_ptr; typedef const node *const_node_ptr;
  static const bool reloc = false;
  static node_ptr get_next(const_node_ptr n) { return n->nx; }
  static node_ptr get_previous(const_node_ptr n) { return n->pv; }
  static void set_next(node_ptr n, node_ptr x) { n->nx = x; }
  static void set_previous(node_ptr n, node_ptr x) { n->pv = x; }
};
struct LRel {
  typedef LRelNode node; typedef sim_ptr<node> node_ptr; typedef sim_ptr<const node> const_node_ptr;
  static const bool reloc = true;
  static node_ptr get_next(const_node_ptr n) { return n->nx; }
  static node_ptr get_previous(const_node_ptr n) { return n->pv; }
  static void set_next(node_ptr n, node_ptr x) { n->nx = x; }
  static void set_previous(node_ptr n, node_ptr x) { n->pv = x; }
};
struct LEnc {
  typedef LEncNode node; typedef node *node_ptr; typedef const node *const_node_ptr;
  static const bool reloc = true;
  static int32_t enc(const_node_ptr n, const_node_ptr x) { return x ? (int32_t)((const char *)x - (const char *)n) | 4 : 0; }
  static node_ptr dec(const_node_ptr n, int32_t v) { return v ? (node_ptr)((char *)n + (v & ~15)) : nullptr; }
  static void touch() { if (g.in_fibers) fiber_yield(22); }
  static node_ptr get_next(const_node_ptr n) { touch(); return dec(n, n->nx); }
  static node_ptr get_previous(const_node_ptr n) { touch(); return dec(n, n->pv); }
  static void set_next(node_ptr n, node_ptr x) { n->nx = enc(n, x); }
  static void set_previous(node_ptr n, node_ptr x) { n->pv = enc(n, x); }
};
enum LAlgoKind { LK_CL, LK_CS, LK_LS };
enum LAlgoOp { H_LINK_AFTER, H_LINK_BEFORE, H_UNLINK, H_UNLINK_RANGE, H_SWAP_NODES, H_SWAP_HEADERS, H_ROTATE_HEADER, H_TRANSFER_RANGE, H_TRANSFER_ONE, H_TRANSFER_ALL, H_INCORPORATE,
  H_REVERSE, H_BACKWARDS, H_FORWARD, H_PARTITION, H_DISPOSE_ALL, H_DISPOSE_RANGE, H_SWAP_TAILS, H_INFO, H_SENTINEL, H_RELOCATE, H_READERS, H_PARALLEL, H_NOPS };
inline const char *lalgo_opname(u32 o) {
  static const char *n[] = {"link_after", "link_before", "unlink", "unlink(range)", "swap_nodes", "swap_nodes(headers)", "swap_nodes(header,node)", "transfer(range)", "transfer(one)", "transfer_after(all)",
    "incorporate_after", "reverse", "move_backwards", "move_forward", "stable_partition", "detach_and_dispose", "unlink_after_and_dispose", "swap_trailing_nodes", "count/distance/neighbours", "sentinel",
    "relocate", "concurrent_readers", "parallel_lists"};
  return o < H_NOPS ? n[o] : "?";
}
template <int K, class L> struct LAlgoPick;
template <class L> struct LAlgoPick<LK_CL, L> { typedef boost::intrusive::circular_list_algorithms<L> A; };
template <class L> struct LAlgoPick<LK_CS, L> { typedef boost::intrusive::circular_slist_algorithms<L> A; };
template <class L> struct LAlgoPick<LK_LS, L> { typedef boost::intrusive::linear_slist_algorithms<L> A; };

template <int KIND, class L> struct LAlgoEngine {
  typedef L NT;
  typedef typename LAlgoPick<KIND, L>::A A;
  typedef typename NT::node E;
  typedef typename NT::node_ptr NP;
  typedef typename NT::const_node_ptr CNP;
  static const bool RELOC = L::reloc;
  Pool<E> P;
  vec<int> m[3];
  size_t hoff[3];
  const Trace *tr = nullptr; u32 si = 0; size_t schedpos = 0; bool skipped = false;
  void skip() { skipped = true; }
  static NP mk(E *p) { return boost::intrusive::pointer_traits<NP>::pointer_to(*p); }
  NP H(int t) { return mk((E *)arena_at(hoff[t])); }
  NP N(int id) { return mk(P.ptr(id)); }
  E *raw(const NP &p) { if constexpr (std::is_pointer<NP>::value) return p; else return p.raw(); }
  // position -1 (and, in circular lists, size()) is the header; in linear lists size() is null
  NP at(int t, int i) { return i < 0 ? H(t) : i < (int)m[t].size() ? N(m[t][i]) : KIND == LK_LS ? NP() : H(t); }
  int index(int t, int id) { for (size_t i = 0; i < m[t].size(); ++i) if (m[t][i] == id) return (int)i; return -1; }
  void expect(const NP &p, const NP &want, const char *what) { if (raw(p) != raw(want)) fail("wrong-result", "%s returned the wrong node", what); }
  void put(int t, int pos, int id) { m[t].insert(m[t].begin() + pos, id); P.owner[id] = t; }
  void start(const Trace &t) {
    tr = &t; int n = (int)t.param(0, 8);
    P.setup(n);
    for (int i = 0; i < n; ++i) { P.create(i, i, 0); A::init(N(i)); if (!A::inited(CNP(N(i))) || !A::unique(CNP(N(i)))) fail("wrong-result", "a node just inited is not"); }
    for (int i = 0; i < 3; ++i) { hoff[i] = arena_alloc(sizeof(E), 16); E *h = new (arena_at(hoff[i])) E; h->id = 10000 + i; A::init_header(mk(h)); }
  }
  void check_list(int t) {
    size_t n = m[t].size(); NP h = H(t), p = NT::get_next(h);
    for (size_t k = 0; k < n; ++k) {
      if (!p || raw(p) != P.ptr(m[t][k])) fail("contents", "list %d: node at position %zu is wrong (model %s)", t, k, fmt_ids(m[t]).c_str());
      p = NT::get_next(p);
    }
    if (raw(p) != (KIND == LK_LS ? (E *)nullptr : raw(h))) fail("contents", "list %d does not end after its %zu nodes", t, n);
    if constexpr (KIND == LK_CL) {
      p = NT::get_previous(h);
      for (size_t k = n; k > 0; --k) { if (!p || raw(p) != P.ptr(m[t][k - 1])) fail("contents", "list %d: backward link into position %zu is wrong", t, k - 1); p = NT::get_previous(p); }
      if (raw(p) != raw(h)) fail("contents", "list %d: backward traversal does not end at the header", t);
    }
    if (A::is_empty(CNP(h)) != (n == 0)) fail("wrong-result", "is_empty(list %d)", t);
    if (A::count(CNP(h)) != n + 1) fail("wrong-result", "count(list %d) is %zu, expected %zu", t, A::count(CNP(h)), n + 1);
    if (A::unique(CNP(h)) != (n == 0)) fail("wrong-result", "unique(list %d)", t);
    u64 s = mix(hash_str(tr->cfg.c_str()), t); for (int id : m[t]) s = mix(s, id + 1); g.states.add(s);
  }
  void oracle() {
    Quiet q; P.verify_data();
    for (int t = 0; t < 3; ++t) check_list(t);
    lognum(0x52); for (int t = 0; t < 3; ++t) { for (int id : m[t]) lognum(id * 4 + t); lognum(999); }
  }
  // the links of a node about to be linked hold anything
  int fresh(u32 b) {
    int id = P.take_free(b); if (id < 0) return -1;
    NP n = N(id);
    switch (b % 4) { case 0: A::init(n); break; case 1: A::init_header(n); break; case 2: NT::set_next(n, H(0)); if constexpr (KIND == LK_CL) NT::set_previous(n, NP()); break; case 3: NT::set_next(n, N(0)); if constexpr (KIND == LK_CL) NT::set_previous(n, H(1)); break; }
    return id;
  }
  struct Rg { int b, e; };
  Rg range(int t, u32 b, u32 c) { int n = (int)m[t].size(), x = (int)(b % (n + 1)), y = (int)(c % (n + 1)); if (x > y) std::swap(x, y); return {x, y}; }
  void release(int t, int b, int e) { for (int i = b; i < e; ++i) P.owner[m[t][i]] = FREE; m[t].erase(m[t].begin() + b, m[t].begin() + e); }
  void move_range(int t, int pos, int u, int b, int e) {          // [b,e) of u before position pos of t (pos not inside)
    vec<int> x(m[u].begin() + b, m[u].begin() + e);
    if (t == u) { if (pos > b) pos -= e - b; }
    m[u].erase(m[u].begin() + b, m[u].begin() + e);
    m[t].insert(m[t].begin() + pos, x.begin(), x.end());
    for (int id : x) P.owner[id] = t;
  }
  void op_link(const Step &s, int t) {
    if (s.op == H_LINK_BEFORE && KIND == LK_LS) return skip();
    int id = fresh(s.b); if (id < 0) return skip();
    int p = (int)(s.c % (m[t].size() + 1));
    if (s.op == H_LINK_AFTER) A::link_after(at(t, p - 1), N(id));
    else if constexpr (KIND != LK_LS) A::link_before(at(t, p), N(id));
    put(t, p, id);
  }
  void op_unlink(const Step &s, int t) {
    if (m[t].empty()) return skip();
    int p = (int)(s.b % m[t].size()), id = m[t][p];
    if constexpr (KIND == LK_CL) { expect(A::unlink(N(id)), at(t, p + 1), "unlink"); }
    else if constexpr (KIND == LK_CS) { if (s.d & 1) A::unlink(N(id)); else A::unlink_after(at(t, p - 1)); if (s.d & 6) { int f = P.take_free(s.c); if (f >= 0) { A::init(N(f)); A::unlink(N(f)); SIM_PROBE("lalgo: unlink of an inited node"); } } }
    else A::unlink_after(at(t, p - 1));
    release(t, p, p + 1);
  }
  void op_unlink_range(const Step &s, int t) {
    Rg r = range(t, s.b, s.c);
    if constexpr (KIND == LK_CL) A::unlink(at(t, r.b), at(t, r.e)); else A::unlink_after(at(t, r.b - 1), at(t, r.e));
    release(t, r.b, r.e);
  }
  void op_swap_nodes(const Step &s) {
    if constexpr (KIND == LK_LS) return skip();
    else {
      int a = -1, b = -1;
      for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0) { a = i; break; } }
      if (a < 0) return skip();
      for (int d = 1; d < P.N; ++d) { int i = (int)((a + (s.c % P.N) + d) % P.N); if (i != a && ((s.d & 3) ? P.owner[i] >= 0 : P.pick(i))) { b = i; break; } }
      if (b < 0) b = a;
      if (P.owner[b] < 0) {                                       // the other node is alone: never linked, or a ring of its own
        bool ring = s.d & 4; if (ring) A::init_header(N(b)); else A::init(N(b));
        int t = P.owner[a], p = index(t, a);
        if (s.d & 8) A::swap_nodes(N(a), N(b)); else A::swap_nodes(N(b), N(a));
        m[t][p] = b; P.owner[b] = t; P.owner[a] = FREE;
        if (ring ? !A::is_empty(CNP(N(a))) : !A::inited(CNP(N(a)))) fail("wrong-result", "the node swapped out is not in the state the other one had");
        SIM_PROBE("lalgo: linked and unlinked node swapped");
        return;
      }
      A::swap_nodes(N(a), N(b));
      int ta = P.owner[a], tb = P.owner[b], ia = index(ta, a), ib = index(tb, b);
      std::swap(m[ta][ia], m[tb][ib]); std::swap(P.owner[a], P.owner[b]);
      if (ta == tb && std::abs(ia - ib) == 1) SIM_PROBE("lalgo: neighbours swapped");
    }
  }
  void op_partition(const Step &s, int t) {
    Rg r = range(t, s.b, s.c); if (s.d & 1) r = {0, (int)m[t].size()};
    u32 salt = s.d >> 1;
    auto sel = [&](int id) { return (mix(salt, id) & 3) < 1 + (salt & 1) * 2; };
    typename A::stable_partition_info info;
    auto pred = [&](const NP &n) { fcall(F_PRED); int id = P.id_of(raw(n)); if (id < 0) fail("wrong-result", "predicate called with something that is not a node"); return sel(id); };
    vec<int> x(m[t].begin() + r.b, m[t].begin() + r.e), y, z;
    for (int id : x) (sel(id) ? y : z).push_back(id);
    Arm arm(s, SIM_BIT(F_PRED));
    bool threw = attempt([&] { if constexpr (KIND == LK_CL) A::stable_partition(at(t, r.b), at(t, r.e), pred, info); else A::stable_partition(at(t, r.b - 1), at(t, r.e), pred, info); });
    if (threw) {                                                  // still a list of the same nodes outside and inside the range
      Quiet q; SIM_PROBE("lalgo: stable_partition threw");
      NP p = at(t, r.b - 1); vec<int> got;
      for (size_t i = 0; i < x.size(); ++i) { p = NT::get_next(p); int id = p && raw(p) != raw(H(t)) ? P.id_of(raw(p)) : -1; if (id < 0) fail("contents", "stable_partition that threw lost nodes"); got.push_back(id); }
      expect_ids(sorted(got), sorted(x), "contents", "stable_partition that threw");
      std::copy(got.begin(), got.end(), m[t].begin() + r.b);
      return;
    }
    vec<int> w = y; w.insert(w.end(), z.begin(), z.end());
    std::copy(w.begin(), w.end(), m[t].begin() + r.b);
    if (info.num_1st_partition != y.size() || info.num_2nd_partition != z.size()) fail("wrong-result", "stable_partition_info counts are %zu and %zu, expected %zu and %zu", info.num_1st_partition, info.num_2nd_partition, y.size(), z.size());
    expect(info.beg_2st_partition, at(t, r.b + (int)y.size()), "stable_partition_info::beg_2st_partition");
    if constexpr (KIND != LK_CL) expect(info.new_last_node, at(t, r.e - 1), "stable_partition_info::new_last_node");
  }
  struct Disp { LAlgoEngine *w; vec<int> *got; void operator()(const NP &p) const { int id = w->P.id_of(w->raw(p)); if (id < 0) fail("dispose", "disposer called with something that is not a node"); got->push_back(id); w->P.poison(id); } };
  void op_dispose(const Step &s, int t) {
    vec<int> got; Disp d{this, &got};
    if constexpr (KIND == LK_CL) return skip();
    else {
      Rg r = range(t, s.b, s.c);
      if (s.op == H_DISPOSE_ALL) { r = {0, (int)m[t].size()}; size_t n = A::detach_and_dispose(H(t), d); if (n != m[t].size()) fail("wrong-result", "detach_and_dispose returned %zu of %zu", n, m[t].size()); }
      else if ((s.d & 1) && !m[t].empty()) { r.b = (int)(s.b % m[t].size()); r.e = r.b + 1; A::unlink_after_and_dispose(at(t, r.b - 1), d); }
      else { size_t n = A::unlink_after_and_dispose(at(t, r.b - 1), at(t, r.e), d); if ((int)n != r.e - r.b) fail("wrong-result", "unlink_after_and_dispose returned %zu", n); }
      vec<int> want(m[t].begin() + r.b, m[t].begin() + r.e);
      expect_ids(got, want, "dispose", "detach/unlink_after_and_dispose");
      m[t].erase(m[t].begin() + r.b, m[t].begin() + r.e);
    }
  }
  void op_move(const Step &s, int t) {
    int n = (int)m[t].size(); size_t k = s.b % 3 == 0 ? (size_t)(s.c % (n + 1)) : s.b % 3 == 1 ? (size_t)(s.c % 40) : (size_t)(s.c % 5) * n;
    bool back = s.op == H_BACKWARDS;
    // moving the header towards the end rotates the elements to the left
    int sh = n ? (int)(k % n) : 0; if (!back && n) sh = (n - sh) % n;
    vec<int> w = m[t]; if (n) std::rotate(w.begin(), w.begin() + sh, w.end());
    if constexpr (KIND == LK_CL) { if (back) A::move_backwards(H(t), k); else A::move_forward(H(t), k); m[t] = w; }
    else if constexpr (KIND == LK_CS) {
      NP r = back ? A::move_backwards(H(t), k) : A::move_forward(H(t), k);
      bool moved = w != m[t]; m[t] = w;
      if (moved) expect(r, at(t, n - 1), "move_backwards/forward (the new last node)"); else if (r) fail("wrong-result", "move_backwards/forward returns a node although nothing moved");
    } else {
      NP f = at(t, 0);
      typename A::node_pair r = back ? A::move_first_n_backwards(f, k) : A::move_first_n_forward(f, k);
      bool moved = w != m[t]; m[t] = w;
      if (moved) { expect(r.first, at(t, 0), "move_first_n (first)"); expect(r.second, at(t, n - 1), "move_first_n (second)"); NT::set_next(H(t), r.first); }
      else if (r.first || r.second) fail("wrong-result", "move_first_n returns nodes although nothing moved");
    }
  }
  void info(int t, u32 b, u32 c) {
    int n = (int)m[t].size(), p = (int)(b % (n + 1)) - 1, q = (int)(c % (n + 2)) - 1;
    if (q < p) std::swap(p, q);
    if (p < 0 && q == n && KIND != LK_LS) q = n - 1 > p ? n - 1 : p;              // from header to header is the empty range
    if (A::distance(CNP(at(t, p)), CNP(at(t, q))) != (size_t)(q - p)) fail("wrong-result", "distance over %d nodes", q - p);
    if (p >= 0 && A::unique(CNP(at(t, p))) && KIND != LK_LS) fail("wrong-result", "unique() of a linked node");
    if (p >= 0 && A::inited(CNP(at(t, p))) && KIND != LK_LS) fail("wrong-result", "inited() of a linked node");
    if constexpr (KIND == LK_CL) { if (p >= 0) { expect(NT::get_previous(at(t, p)), at(t, p - 1), "get_previous"); } }
    else {
      if (p >= 0) expect(A::get_previous_node(H(t), at(t, p)), at(t, p - 1), "get_previous_node(from the header)");
      if (q > p) expect(A::get_previous_node(at(t, p), at(t, q)), at(t, q - 1), "get_previous_node(from a node)");
      if constexpr (KIND == LK_CS) {
        expect(A::get_previous_node(at(t, p)), p < 0 ? at(t, n - 1) : at(t, p - 1), "get_previous_node");
        int ring = n + 1, pp = (p + 1 - 2 + 2 * ring) % ring - 1; expect(A::get_previous_previous_node(at(t, p)), at(t, pp), "get_previous_previous_node");
        expect(A::end_node(CNP(H(t))), H(t), "end_node");
        if (A::is_sentinel(CNP(H(t)))) fail("wrong-result", "is_sentinel(header)");
      } else { if (A::is_sentinel(CNP(H(t)))) fail("wrong-result", "is_sentinel(header)"); if (A::end_node(CNP(H(t)))) fail("wrong-result", "end_node of a linear list is not null"); }
    }
  }
  struct RCtx { LAlgoEngine *w; u64 seed; int nops; };
  static void reader(void *v, int f) { RCtx &r = *(RCtx *)v; Rng g_(mix(r.seed, f)); for (int i = 0; i < r.nops; ++i) { int t = (int)g_.below(3); u32 a = g_.below(4096), b = g_.below(4096); r.w->info(t, a, b); if (A::count(CNP(r.w->H(t))) != r.w->m[t].size() + 1) fail("wrong-result", "count"); } }
  static void writer(void *v, int f) {
    RCtx &r = *(RCtx *)v; LAlgoEngine &w = *r.w; Rng g_(mix(r.seed, f));
    for (int i = 0; i < r.nops; ++i) {
      int t = f; u32 a = g_.below(4096), b = g_.below(4096);
      switch (g_.below(5)) {
      case 0: case 1: { int id = -1; for (int d = 0, st = (int)(a % w.P.N); d < w.P.N && id < 0; ++d) { int j = (st + d) % w.P.N; if (j % 3 == f && w.P.pick(j)) id = j; } if (id < 0) break; int p = (int)(b % (w.m[t].size() + 1)); A::link_after(w.at(t, p - 1), w.N(id)); w.put(t, p, id); break; }
      case 2: { Step s; s.op = H_UNLINK; s.b = a; s.d = 1; w.op_unlink(s, t); break; }
      case 3: { Step s; s.op = b & 1 ? H_BACKWARDS : H_FORWARD; s.b = a; s.c = b; w.op_move(s, t); break; }
      case 4: if constexpr (KIND == LK_LS) { NT::set_next(w.H(t), A::reverse(NT::get_next(w.H(t)))); } else A::reverse(w.H(t)); std::reverse(w.m[t].begin(), w.m[t].end()); break;
      }
    }
  }
  void step(const Step &s) {
    int t = (int)(s.a % 3), u = (t + (int)(s.a / 3 % 3)) % 3;
    switch (s.op) {
    case H_LINK_AFTER: case H_LINK_BEFORE: op_link(s, t); break;
    case H_UNLINK: op_unlink(s, t); break;
    case H_UNLINK_RANGE: op_unlink_range(s, t); break;
    case H_SWAP_NODES: op_swap_nodes(s); break;
    case H_SWAP_HEADERS: if constexpr (KIND != LK_LS) { A::swap_nodes(H(t), H(u)); m[t].swap(m[u]); for (int id : m[t]) P.owner[id] = t; for (int id : m[u]) P.owner[id] = u; } else skip(); break;
    case H_ROTATE_HEADER: if constexpr (KIND != LK_LS) {
        if (m[t].empty()) return skip();
        int p = (int)(s.b % m[t].size());
        if (s.d & 1) A::swap_nodes(H(t), N(m[t][p])); else A::swap_nodes(N(m[t][p]), H(t));
        vec<int> r(1, -1); r.insert(r.end(), m[t].begin(), m[t].end()); std::swap(r[0], r[p + 1]); std::rotate(r.begin(), r.begin() + p + 1, r.end());
        m[t].assign(r.begin() + 1, r.end());
      } else skip(); break;
    case H_TRANSFER_RANGE: {
      Rg r = range(u, s.b, s.c); int p = (int)(s.d % (m[t].size() + 1));
      if (t == u && p > r.b && p < r.e) return skip();
      if constexpr (KIND == LK_CL) A::transfer(at(t, p), at(u, r.b), at(u, r.e));
      else { if (t == u && p == r.b && r.b != r.e) {} A::transfer_after(at(t, p - 1), at(u, r.b - 1), at(u, r.e - 1)); }
      move_range(t, p, u, r.b, r.e); break; }
    case H_TRANSFER_ONE: {
      if (m[u].empty()) return skip();
      int b = (int)(s.b % m[u].size()), p = (int)(s.d % (m[t].size() + 1));
      if constexpr (KIND == LK_CL) A::transfer(at(t, p), at(u, b)); else A::transfer_after(at(t, p - 1), at(u, b - 1), at(u, b));
      move_range(t, p, u, b, b + 1); break; }
    case H_TRANSFER_ALL: if constexpr (KIND != LK_CL) { if (t == u) return skip(); int p = (int)(s.d % (m[t].size() + 1)); if (m[u].empty()) SIM_PROBE("lalgo: transfer_after of an empty list"); A::transfer_after(at(t, p - 1), H(u)); move_range(t, p, u, 0, (int)m[u].size()); } else skip(); break;
    case H_INCORPORATE: if constexpr (KIND != LK_CL) {
        int k = 1 + (int)(s.b % 4), p = (int)(s.d % (m[t].size() + 1)); vec<int> x;
        for (int i = 0; i < k; ++i) { int id = fresh(s.c + i); if (id < 0) break; P.owner[id] = t; x.push_back(id); if (i) NT::set_next(N(x[i - 1]), N(id)); }
        if (x.empty()) return skip();
        A::incorporate_after(at(t, p - 1), N(x[0]), N(x.back())); m[t].insert(m[t].begin() + p, x.begin(), x.end());
      } else skip(); break;
    case H_REVERSE: if constexpr (KIND == LK_LS) { NP f = A::reverse(NT::get_next(H(t))); NT::set_next(H(t), f); } else A::reverse(H(t)); std::reverse(m[t].begin(), m[t].end()); break;
    case H_BACKWARDS: case H_FORWARD: op_move(s, t); break;
    case H_PARTITION: op_partition(s, t); break;
    case H_DISPOSE_ALL: case H_DISPOSE_RANGE: op_dispose(s, t); break;
    case H_SWAP_TAILS: if constexpr (KIND == LK_LS) {
        if (t == u) return skip();
        int p = (int)(s.b % (m[t].size() + 1)), q = (int)(s.c % (m[u].size() + 1));
        A::swap_trailing_nodes(at(t, p - 1), at(u, q - 1));
        vec<int> x(m[t].begin() + p, m[t].end()), y(m[u].begin() + q, m[u].end());
        m[t].resize(p); m[t].insert(m[t].end(), y.begin(), y.end()); m[u].resize(q); m[u].insert(m[u].end(), x.begin(), x.end());
        for (int id : m[t]) P.owner[id] = t; for (int id : m[u]) P.owner[id] = u;
      } else skip(); break;
    case H_INFO: info(t, s.b, s.c); break;
    case H_SENTINEL: if constexpr (KIND != LK_CL) { int id = fresh(s.b); if (id < 0) return skip(); NP n = N(id); A::set_sentinel(n); if (!A::is_sentinel(CNP(n)) || A::is_empty(CNP(n))) fail("wrong-result", "sentinel state is not distinguishable"); A::init_header(n); if (A::is_sentinel(CNP(n)) || !A::is_empty(CNP(n))) fail("wrong-result", "init_header after set_sentinel"); } else skip(); break;
    case H_RELOCATE: if (RELOC) arena_relocate(); else skip(); break;
    case H_READERS: { RCtx r{this, mix(tr->seed, si), 2 + (int)(s.b % 5)}; arena_protect(true); Fibers::run(2 + (int)(s.a % 3), reader, &r, tr->sched, schedpos); arena_protect(false); break; }
    case H_PARALLEL: { RCtx r{this, mix(tr->seed, si), 3 + (int)(s.b % 5)}; Fibers::run(3, writer, &r, tr->sched, schedpos); break; }
    }
  }
  static void run(const Trace &t) {
    static LAlgoEngine *w = nullptr; delete w; w = new LAlgoEngine; w->start(t); w->oracle();
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i]; w->si = i; g.slot->step = i; g.in_step = true; w->skipped = false; w->P.step_begin();
      op_begin(lalgo_opname(s.op));
      log("step %u %s a=%u b=%u c=%u d=%u fault=%u@%u", i, lalgo_opname(s.op), s.a, s.b, s.c, s.d, s.fk, s.fn);
      w->step(s);
      w->P.step_end(); ++g.slot->steps; if (w->skipped) ++g.slot->op_skipped; else ++g.slot->op_done;
      if (oracle_due(t, i, H_READERS)) w->oracle();
    }
  }
  static void gen(Rng &r, const Mode &md, Trace &t) {
    Focus f = focus_of(md.prop);
    int n = r.chance(1, 10) ? (int)r.range(20, 60) : (int)r.range(1, 10);
    t.params = {(u32)n};
    OpMix w(H_NOPS);
    static const u32 base[H_NOPS] = {20, 10, 10, 3, 8, 3, 3, 10, 8, 4, 4, 3, 6, 6, 8, 1, 4, 4, 8, 1, RELOC ? 3 : 0, 1, 1};
    for (u32 i = 0; i < H_NOPS; ++i) w.set(i, base[i]);
    if (KIND == LK_CL) for (u32 i : {H_TRANSFER_ALL, H_INCORPORATE, H_DISPOSE_ALL, H_DISPOSE_RANGE, H_SENTINEL, H_SWAP_TAILS}) w.set(i, 0);
    if (KIND == LK_LS) for (u32 i : {H_LINK_BEFORE, H_SWAP_NODES, H_SWAP_HEADERS, H_ROTATE_HEADER}) w.set(i, 0);
    if (KIND == LK_CS) w.set(H_SWAP_TAILS, 0);
    OpMix w0 = w;
    w.swarm(r);
    if (w.w[H_LINK_AFTER] < 20) w.w[H_LINK_AFTER] = 20;
    auto b_ = [&](u32 op, u32 v) { if (w0.w[op]) w.w[op] = std::max(w.w[op], v); };
    if (f.nodes) { b_(H_SWAP_NODES, 25); b_(H_SWAP_HEADERS, 6); b_(H_ROTATE_HEADER, 8); b_(H_INCORPORATE, 8); }
    if (f.transfer) { b_(H_TRANSFER_RANGE, 30); b_(H_TRANSFER_ONE, 20); b_(H_TRANSFER_ALL, 15); b_(H_SWAP_TAILS, 10); }
    if (f.positional) { b_(H_BACKWARDS, 25); b_(H_FORWARD, 25); b_(H_PARTITION, 25); b_(H_REVERSE, 8); }
    if (f.dispose) { b_(H_DISPOSE_RANGE, 20); b_(H_DISPOSE_ALL, 5); }
    if (f.readers) b_(H_READERS, 30);
    if (f.parallel) b_(H_PARALLEL, 30);
    if (f.reloc) b_(H_RELOCATE, 25);
    int steps = (int)r.range(8, 60); bool fib = false;
    for (int i = 0; i < steps; ++i) {
      Step s; s.op = i < 3 ? (u32)H_LINK_AFTER : w.pick(r);
      s.a = r.below(63); if (r.chance(1, 2)) s.a -= s.a % 3;
      s.b = r.below(4096); s.c = r.below(4096); s.d = r.below(4096);
      if (r.below(100) < (f.faults ? 45u : 8u)) { s.fk = F_PRED; s.fn = r.range(1, r.chance(1, 2) ? 4 : 16); }
      fib |= s.op == H_READERS || s.op == H_PARALLEL;
      t.steps.push_back(s);
    }
    if (fib) { u32 k = r.chance(1, 4) ? 6 : 200, style = r.below(3); for (u32 i = 0; i < k; ++i) t.sched.push_back(r.below(8) | ((style == 0 ? 0 : style == 1 ? r.below(4) : r.below(40)) << 3)); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "lalgo", gen, run, lalgo_opname}; }
};
} // namespace sim
#define SIM_LALGO_CONFIG(KIND, LAYOUT, NAME) static ::sim::Registrar reg_##NAME(::sim::LAlgoEngine<::sim::KIND, ::sim::LAYOUT>::entry(#NAME));

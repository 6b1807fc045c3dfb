// Simulation of the tree node algorithms with node layouts supplied by the user.
// World: three trees (header node + pool nodes) driven directly through the public
// node algorithms; the layout hides its links behind getters and setters (raw
// pointers, self-relative pointers, or 32-bit offsets with the balance packed into
// the parent link), so only what goes through the traits works.
#pragma once
#include "world.hpp"
#include <boost/intrusive/bstree_algorithms.hpp>
#include <boost/intrusive/rbtree_algorithms.hpp>
#include <boost/intrusive/avltree_algorithms.hpp>
#include <boost/intrusive/splaytree_algorithms.hpp>
#include <boost/intrusive/sgtree_algorithms.hpp>
#include <boost/intrusive/treap_algorithms.hpp>

namespace sim {
// ---------------------------------------------------------------- node layouts
struct RawNode : public Data { signed char bal; RawNode *r, *p, *l; };
struct RelNode : public Data { sim_ptr<RelNode> p, l, r; int bal; };
struct EncNode : public Data { int32_t l, r; int32_t pb; };      // offsets relative to the node; 2 low bits of pb: balance
struct RawLayout {
  typedef RawNode node; typedef node *node_ptr; typedef const node *const_node_ptr;
  static const bool reloc = false;
  static node_ptr get_left(const_node_ptr n) { return n->l; }
  static node_ptr get_right(const_node_ptr n) { return n->r; }
  static node_ptr get_parent(const_node_ptr n) { return n->p; }
  static void set_left(node_ptr n, node_ptr x) { n->l = x; }
  static void set_right(node_ptr n, node_ptr x) { n->r = x; }
  static void set_parent(node_ptr n, node_ptr x) { n->p = x; }
  static int gb(const_node_ptr n) { return n->bal; }
  static void sb(node_ptr n, int b) { n->bal = (signed char)b; }
};
struct RelLayout {
  typedef RelNode node; typedef sim_ptr<node> node_ptr; typedef sim_ptr<const node> const_node_ptr;
  static const bool reloc = true;
  static node_ptr get_left(const_node_ptr n) { return n->l; }
  static node_ptr get_right(const_node_ptr n) { return n->r; }
  static node_ptr get_parent(const_node_ptr n) { return n->p; }
  static void set_left(node_ptr n, node_ptr x) { n->l = x; }
  static void set_right(node_ptr n, node_ptr x) { n->r = x; }
  static void set_parent(node_ptr n, node_ptr x) { n->p = x; }
  static int gb(const_node_ptr n) { return n->bal; }
  static void sb(node_ptr n, int b) { n->bal = b; }
};
struct EncLayout {
  typedef EncNode node; typedef node *node_ptr; typedef const node *const_node_ptr;
  static const bool reloc = true;
  static int32_t enc(const_node_ptr n, const_node_ptr x) { return x ? (int32_t)((const char *)x - (const char *)n) | 4 : 0; }   // nodes are 16-byte aligned
  static node_ptr dec(const_node_ptr n, int32_t v) { v &= ~3; return v ? (node_ptr)((char *)n + (v & ~15)) : nullptr; }
  static void touch() { if (g.in_fibers) fiber_yield(21); }
  static node_ptr get_left(const_node_ptr n) { touch(); return dec(n, n->l); }
  static node_ptr get_right(const_node_ptr n) { touch(); return dec(n, n->r); }
  static node_ptr get_parent(const_node_ptr n) { touch(); return dec(n, n->pb); }
  static void set_left(node_ptr n, node_ptr x) { n->l = enc(n, x); }
  static void set_right(node_ptr n, node_ptr x) { n->r = enc(n, x); }
  static void set_parent(node_ptr n, node_ptr x) { n->pb = enc(n, x) | (n->pb & 3); }
  static int gb(const_node_ptr n) { return n->pb & 3; }
  static void sb(node_ptr n, int b) { n->pb = (n->pb & ~3) | (b & 3); }
};
template <class L> struct RbNT : public L {
  typedef int color; typedef typename L::node_ptr NP; typedef typename L::const_node_ptr CNP;
  static color get_color(CNP n) { return L::gb(n); }
  static void set_color(NP n, color c) { if (c != 1 && c != 2) fail("node-traits", "set_color with a value that is no colour"); L::sb(n, c); }
  static color black() { return 2; }
  static color red() { return 1; }
};
template <class L> struct AvlNT : public L {
  typedef int balance; typedef typename L::node_ptr NP; typedef typename L::const_node_ptr CNP;
  static balance get_balance(CNP n) { return L::gb(n); }
  static void set_balance(NP n, balance b) { if (b < 1 || b > 3) fail("node-traits", "set_balance with a value that is no balance"); L::sb(n, b); }
  static balance negative() { return 3; }
  static balance zero() { return 1; }
  static balance positive() { return 2; }
};

enum AlgoKind { AK_BS, AK_RB, AK_AVL, AK_SPLAY, AK_SG, AK_TREAP };
enum AlgoOp { G_UPPER, G_LOWER, G_HINT, G_CHECK, G_CHECK_HINT, G_BEFORE, G_BACK, G_FRONT, G_ERASE, G_UNLINK, G_SWAP_NODES, G_REPLACE, G_SWAP_TREE, G_CLONE, G_CLEAR,
  G_LOOKUP, G_BOUNDED, G_XFER, G_LEFTMOST, G_REBALANCE, G_REBALANCE_SUB, G_SPLAY_UP, G_SPLAY_DOWN, G_INFO, G_RELOCATE, G_READERS, G_PARALLEL, G_BULK, G_NOPS };
inline const char *algo_opname(u32 o) {
  static const char *n[] = {"insert_equal_upper_bound", "insert_equal_lower_bound", "insert_equal(hint)", "insert_unique_check+commit", "insert_unique_check(hint)+commit",
    "insert_before", "push_back", "push_front", "erase", "unlink", "swap_nodes", "replace_node", "swap_tree", "clone", "clear_and_dispose", "lookup", "bounded_range", "transfer",
    "unlink_leftmost_without_rebalance", "rebalance", "rebalance_subtree", "splay_up", "splay_down", "get_header/neighbours/size", "relocate", "concurrent_readers", "parallel_trees", "bulk"};
  return o < G_NOPS ? n[o] : "?";
}
template <int K, class L> struct AlgoPick;
template <class L> struct AlgoPick<AK_BS, L> { typedef L NT; typedef boost::intrusive::bstree_algorithms<NT> A; };
template <class L> struct AlgoPick<AK_RB, L> { typedef RbNT<L> NT; typedef boost::intrusive::rbtree_algorithms<NT> A; };
template <class L> struct AlgoPick<AK_AVL, L> { typedef AvlNT<L> NT; typedef boost::intrusive::avltree_algorithms<NT> A; };
template <class L> struct AlgoPick<AK_SPLAY, L> { typedef L NT; typedef boost::intrusive::splaytree_algorithms<NT> A; };
template <class L> struct AlgoPick<AK_SG, L> { typedef L NT; typedef boost::intrusive::sgtree_algorithms<NT> A; };
template <class L> struct AlgoPick<AK_TREAP, L> { typedef L NT; typedef boost::intrusive::treap_algorithms<NT> A; };

template <int KIND, class L> struct AlgoEngine {
  typedef typename AlgoPick<KIND, L>::NT NT;
  typedef typename AlgoPick<KIND, L>::A A;
  typedef typename NT::node E;
  typedef typename NT::node_ptr NP;
  typedef typename NT::const_node_ptr CNP;
  static const bool RELOC = L::reloc;
  struct KCmp {
    template <class X> static int k(const X &n) { return kk(n); }
    static int key(int k) { return k; }
    static int key(const NP &n) { return n->key; }
    struct dummy {};
    static int key(const typename std::conditional<std::is_same<NP, CNP>::value, dummy, CNP>::type &n) { return n->key; }
    template <class X, class Y> bool operator()(const X &a, const Y &b) const { fcall(F_CMP); return key(a) < key(b); }
  };
  struct PCmp { template <class X, class Y> bool operator()(const X &a, const Y &b) const { fcall(F_PRIO); return pr(a) < pr(b); }
    static int pr(int p) { return p; } static int pr(const NP &n) { return n->prio; }
    struct dummy {}; static int pr(const typename std::conditional<std::is_same<NP, CNP>::value, dummy, CNP>::type &n) { return n->prio; } };
  struct HAlpha { std::size_t operator()(std::size_t n) const { return (std::size_t)(std::log((double)n) / std::log(1 / 0.7)); } };
  struct AMax { std::size_t operator()(std::size_t n) const { return (std::size_t)(0.7 * (double)n); } };

  Pool<E> P;
  vec<int> m[3];
  size_t hoff[3], maxsz[3], sgmax[3];
  const Trace *tr = nullptr; u32 si = 0; size_t schedpos = 0; int keyrange = 8; bool skipped = false;
  void skip() { skipped = true; }
  static NP mk(E *p) { return boost::intrusive::pointer_traits<NP>::pointer_to(*p); }
  NP H(int t) { return mk((E *)arena_at(hoff[t])); }
  CNP CH(int t) { return CNP(H(t)); }
  NP N(int id) { return mk(P.ptr(id)); }
  E *raw(const NP &p) { if constexpr (std::is_pointer<NP>::value) return p; else return p.raw(); }
  int lower(int t, int k) { size_t i = 0; while (i < m[t].size() && P.key[m[t][i]] < k) ++i; return (int)i; }
  int upper(int t, int k) { size_t i = 0; while (i < m[t].size() && P.key[m[t][i]] <= k) ++i; return (int)i; }
  NP node_at(int t, int i) { return i == (int)m[t].size() ? H(t) : N(m[t][i]); }
  int index(int t, int id) { for (size_t i = 0; i < m[t].size(); ++i) if (m[t][i] == id) return (int)i; return -1; }
  void put(int t, int pos, int id) { m[t].insert(m[t].begin() + pos, id); P.owner[id] = t; sgmax[t] = std::max(sgmax[t], m[t].size()); }
  void take(int t, int pos) { P.owner[m[t][pos]] = FREE; m[t].erase(m[t].begin() + pos); }
  int pos_of(int t, const NP &p, const char *what) {
    if (raw(p) == raw(H(t))) return (int)m[t].size();
    int id = P.id_of(raw(p)); int i = id < 0 ? -1 : index(t, id);
    if (i < 0) fail("wrong-result", "%s returned a node that is not in the tree", what);
    return i;
  }
  void expect_pos(int t, const NP &p, int want, const char *what) { int g_ = pos_of(t, p, what); if (g_ != want) fail("wrong-result", "%s on tree %d returned position %d, expected %d (contents %s)", what, t, g_, want, fmt_ids(m[t]).c_str()); }
  // a node that is about to be linked holds arbitrary link contents
  int fresh(u32 b, u32 c) {
    int id = P.take_free(b); if (id < 0) return -1;
    P.rekey(id, (int)(c % keyrange), (int)(c / 7 % 16));
    return id;
  }
  void start(const Trace &t) {
    tr = &t; int n = (int)t.param(0, 8); keyrange = (int)t.param(1, 8);
    P.setup(n);
    for (int i = 0; i < n; ++i) { P.create(i, 0, 0); A::init(N(i)); }
    for (int i = 0; i < 3; ++i) { hoff[i] = arena_alloc(sizeof(E), 16); E *h = new (arena_at(hoff[i])) E; h->id = 10000 + i; A::init_header(mk(h)); maxsz[i] = sgmax[i] = 0; }
  }
  // ---------------------------------------------------------------- oracle
  struct Walk { int h, bh; long n; };
  void shape(const char *w, int t) { fail("shape", "tree %d: %s (n=%zu)", t, w, m[t].size()); }
  Walk walk(const NP &p, const NP &parent, int t, int depth) {
    Walk r{0, 1, 0}; if (!p) return r;
    if (depth > (int)m[t].size() + 2) shape("deeper than its element count", t);
    if (raw(NT::get_parent(p)) != raw(parent)) shape("parent link of a child is wrong", t);
    Walk a = walk(NT::get_left(p), p, t, depth + 1), b = walk(NT::get_right(p), p, t, depth + 1);
    r.h = 1 + std::max(a.h, b.h); r.n = 1 + a.n + b.n;
    if constexpr (KIND == AK_RB) {
      bool red = NT::get_color(p) == NT::red();
      if (a.bh != b.bh) shape("red-black: unequal black heights", t);
      if (red) for (NP c : {NT::get_left(p), NT::get_right(p)}) if (c && NT::get_color(c) == NT::red()) shape("red-black: red node with a red child", t);
      r.bh = a.bh + !red;
    }
    if constexpr (KIND == AK_AVL) {
      int d = b.h - a.h;
      if (d < -1 || d > 1) shape("AVL: subtree heights differ by more than one", t);
      if (NT::get_balance(p) != (d < 0 ? NT::negative() : d > 0 ? NT::positive() : NT::zero())) shape("AVL: stored balance is wrong", t);
    }
    if constexpr (KIND == AK_TREAP) for (NP c : {NT::get_left(p), NT::get_right(p)}) if (c && c->prio < p->prio) shape("treap: child with higher priority than its parent", t);
    return r;
  }
  u64 shape_hash(const NP &p) { return !p ? 7 : mix(mix(shape_hash(NT::get_left(p)), (u64)p->key * 2654435761u + 1), shape_hash(NT::get_right(p)) * 31 + 5); }
  void check_tree(int t) {
    NP h = H(t); size_t n = m[t].size();
    NP root = NT::get_parent(h);
    if (!n) {
      if (root) shape("empty tree with a root", t);
      if (raw(NT::get_left(h)) != raw(h) || raw(NT::get_right(h)) != raw(h)) shape("empty tree whose header does not point to itself", t);
    } else {
      if (!root) shape("non-empty tree without a root", t);
      if (raw(NT::get_left(h)) != P.ptr(m[t][0]) || raw(NT::get_right(h)) != P.ptr(m[t][n - 1])) shape("leftmost or rightmost cached in the header is wrong", t);
    }
    if constexpr (KIND == AK_RB) if (NT::get_color(h) != NT::red()) shape("red-black header is not red", t);
    Walk w = walk(root, h, t, 1);
    if ((size_t)w.n != n) shape("number of reachable nodes is wrong", t);
    size_t k = 0;
    for (NP p = A::begin_node(h); raw(p) != raw(h); p = A::next_node(p), ++k) { if (k >= n || raw(p) != P.ptr(m[t][k])) fail("contents", "tree %d: node at position %zu is wrong (model %s)", t, k, fmt_ids(m[t]).c_str()); }
    if (k != n) fail("contents", "tree %d: iteration ends after %zu of %zu nodes", t, k, n);
    NP p = A::end_node(h);
    for (k = n; k > 0; --k) { p = A::prev_node(p); if (raw(p) != P.ptr(m[t][k - 1])) fail("contents", "tree %d: backward iteration is wrong", t); }
    if (A::size(CNP(h)) != n) fail("size", "tree %d: size() is wrong", t);
    double lg = std::log2((double)n + 1);
    if (KIND == AK_RB && w.h > 2 * lg + 0.001) shape("red-black height exceeds 2*log2(n+1)", t);
    if (KIND == AK_SG && n && w.h > std::log((double)std::max(sgmax[t], n)) / std::log(1 / 0.7) + 3) shape("scapegoat height bound exceeded", t);
    g.states.add(mix(mix(hash_str(tr->cfg.c_str()), t), shape_hash(root)));
  }
  void oracle() {
    Quiet q;
    P.verify_data();
    for (int t = 0; t < 3; ++t) check_tree(t);
    lognum(0x51); for (int t = 0; t < 3; ++t) { for (int id : m[t]) lognum(id * 4 + t); lognum(999); }
  }
  // ---------------------------------------------------------------- kind-specific calls
  NP ins(int t, u32 how, const NP &hint, const NP &n) {
    NP h = H(t);
    if constexpr (KIND == AK_TREAP) return how == 0 ? A::insert_equal_upper_bound(h, n, KCmp(), PCmp()) : how == 1 ? A::insert_equal_lower_bound(h, n, KCmp(), PCmp()) : how == 2 ? A::insert_equal(h, hint, n, KCmp(), PCmp()) : A::insert_before(h, hint, n, PCmp());
    else if constexpr (KIND == AK_SG) { size_t s = m[t].size(); return how == 0 ? A::insert_equal_upper_bound(h, n, KCmp(), s, HAlpha(), maxsz[t]) : how == 1 ? A::insert_equal_lower_bound(h, n, KCmp(), s, HAlpha(), maxsz[t]) : how == 2 ? A::insert_equal(h, hint, n, KCmp(), s, HAlpha(), maxsz[t]) : A::insert_before(h, hint, n, s, HAlpha(), maxsz[t]); }
    else return how == 0 ? A::insert_equal_upper_bound(h, n, KCmp()) : how == 1 ? A::insert_equal_lower_bound(h, n, KCmp()) : how == 2 ? A::insert_equal(h, hint, n, KCmp()) : A::insert_before(h, hint, n);
  }
  void pushend(int t, bool back, const NP &n) {
    NP h = H(t);
    if constexpr (KIND == AK_TREAP) back ? A::push_back(h, n, PCmp()) : A::push_front(h, n, PCmp());
    else if constexpr (KIND == AK_SG) back ? A::push_back(h, n, m[t].size(), HAlpha(), maxsz[t]) : A::push_front(h, n, m[t].size(), HAlpha(), maxsz[t]);
    else back ? A::push_back(h, n) : A::push_front(h, n);
  }
  void erase(int t, const NP &n) {
    if constexpr (KIND == AK_TREAP) A::erase(H(t), n, PCmp());
    else if constexpr (KIND == AK_SG) A::erase(H(t), n, m[t].size(), maxsz[t], AMax());
    else A::erase(H(t), n);
  }
  static const u32 INSF = SIM_BIT(F_CMP) | SIM_BIT(F_PRIO);

  void op_insert(const Step &s, int t) {
    int id = fresh(s.b, s.c); if (id < 0) return skip();
    int lo = lower(t, P.key[id]), hi = upper(t, P.key[id]);
    NP hint = node_at(t, (int)(s.d % (m[t].size() + 1)));
    if (s.op == G_HINT && (s.d & 64)) hint = node_at(t, lo + (int)(s.d % (hi - lo + 1)));
    int hpos = pos_of(t, hint, "hint");
    Arm arm(s, INSF);
    NP r;
    if (attempt([&] { r = ins(t, s.op - G_UPPER, hint, N(id)); })) { A::init(N(id)); return; }
    if (raw(r) != P.ptr(id)) fail("wrong-result", "insertion does not return the inserted node");
    if (s.op == G_UPPER) put(t, hi, id);
    else if (s.op == G_LOWER) put(t, lo, id);
    else {
      int p = real_pos(t, id);
      if (p < lo || p > hi) fail("order", "hinted insertion put the node at position %d outside [%d,%d]", p, lo, hi);
      if (hpos >= lo && hpos <= hi && p != hpos) fail("wrong-result", "a correct hint (position %d) was not honoured (position %d)", hpos, p);
      put(t, p, id);
    }
  }
  int real_pos(int t, int id) { Quiet q; int i = 0; for (NP p = A::begin_node(H(t)); raw(p) != raw(H(t)); p = A::next_node(p), ++i) { if (raw(p) == P.ptr(id)) return i; if (i > P.N) break; } fail("contents", "the inserted node is not in the tree"); }
  void op_check(const Step &s, int t) {
    int id = fresh(s.b, s.c); if (id < 0) return skip();
    int k = P.key[id], lo = lower(t, k), hi = upper(t, k);
    typename A::insert_commit_data cd;
    NP hint = node_at(t, s.d & 64 ? lo : (int)(s.d % (m[t].size() + 1)));
    std::pair<NP, bool> r;
    bool wh = s.op == G_CHECK_HINT;
    Arm arm(s, INSF);
    if (attempt([&] {
          if constexpr (KIND == AK_TREAP) r = wh ? A::insert_unique_check(H(t), hint, k, KCmp(), P.prio[id], PCmp(), cd) : A::insert_unique_check(H(t), k, KCmp(), P.prio[id], PCmp(), cd);
          else r = wh ? A::insert_unique_check(H(t), hint, k, KCmp(), cd) : A::insert_unique_check(H(t), k, KCmp(), cd);
        })) return;
    if (r.second != (lo == hi)) fail("wrong-result", "insert_unique_check(%d) says %d, expected %d", k, (int)r.second, (int)(lo == hi));
    if (!r.second) { int p = pos_of(t, r.first, "insert_unique_check"); if (p < lo || p >= hi) fail("wrong-result", "insert_unique_check does not return the equivalent node"); return; }
    if (s.d & 128) return;                                        // prepared but never committed
    { NoFunctor nf("insert_unique_commit");
      if constexpr (KIND == AK_SG) A::insert_unique_commit(H(t), N(id), cd, m[t].size(), HAlpha(), maxsz[t]);
      else A::insert_unique_commit(H(t), N(id), cd); }
    put(t, lo, id);
  }
  void op_positional(const Step &s, int t) {
    int id = fresh(s.b, s.c); if (id < 0) return skip();
    int n = (int)m[t].size(), p = s.op == G_BACK ? n : s.op == G_FRONT ? 0 : (int)(s.d % (n + 1));
    // choose a key that belongs there
    int k = p < n ? P.key[m[t][p]] : n ? P.key[m[t][n - 1]] : (int)(s.c % keyrange);
    P.rekey(id, k, P.prio[id]);
    Arm arm(s, SIM_BIT(F_PRIO));
    if (attempt([&] { if (s.op == G_BEFORE) { NP r = ins(t, 3, node_at(t, p), N(id)); if (raw(r) != P.ptr(id)) fail("wrong-result", "insert_before does not return the node"); } else pushend(t, s.op == G_BACK, N(id)); })) { A::init(N(id)); return; }
    put(t, p, id);
  }
  void op_erase(const Step &s, int t) {
    if (m[t].empty()) return skip();
    int p = (int)(s.b % m[t].size()), id = m[t][p];
    Arm arm(s, SIM_BIT(F_PRIO));
    bool un = s.op == G_UNLINK;
    if (un && KIND == AK_SG) return skip();
    if (attempt([&] {
          if (un) { if constexpr (KIND == AK_TREAP) A::unlink(N(id), PCmp()); else if constexpr (KIND != AK_SG) A::unlink(N(id)); }
          else erase(t, N(id)); })) return;
    A::init(N(id)); take(t, p);
    if (un) SIM_PROBE("algo: unlink");
  }
  void op_swap_nodes(const Step &s) {
    int a = -1, b = -1;
    for (int d = 0; d < P.N; ++d) { int i = (int)((s.b + d) % P.N); if (P.owner[i] >= 0) { a = i; break; } }
    if (a < 0) return skip();
    if (s.d & 1) for (int d = 1; d < P.N; ++d) { int i = (int)((s.c + d) % P.N); if (i != a && P.owner[i] >= 0) { b = i; break; } }
    if (b < 0) { b = P.take_free(s.c); if (b < 0) return skip(); }
    // node surgery does not look at keys; the keys are swapped along so that order still holds
    int ka = P.key[a], pa_ = P.prio[a], kb = P.key[b], pb_ = P.prio[b];
    int ta = P.owner[a], tb = P.owner[b];
    int ia = index(ta, a), ib = tb >= 0 ? index(tb, b) : -1;
    bool hdr = tb >= 0 && (s.d & 4);                              // with the headers given: both must be linked
    { NoFunctor nf("swap_nodes");
      NP x = s.d & 2 ? N(a) : N(b), y = s.d & 2 ? N(b) : N(a);
      if (hdr) A::swap_nodes(x, H(s.d & 2 ? ta : tb), y, H(s.d & 2 ? tb : ta));
      else if (tb < 0) { A::init(N(b)); if constexpr (KIND == AK_RB) NT::set_color(N(b), NT::black()); if constexpr (KIND == AK_AVL) NT::set_balance(N(b), NT::zero()); A::swap_nodes(x, y); }
      else A::swap_nodes(x, y); }
    P.rekey(a, kb, pb_); P.rekey(b, ka, pa_);
    m[ta][ia] = b; P.owner[b] = ta;
    if (tb >= 0) { m[tb][ib] = a; P.owner[a] = tb; SIM_PROBE("algo: two linked nodes swapped"); if (ta == tb && (raw(NT::get_parent(N(a))) == P.ptr(b) || raw(NT::get_parent(N(b))) == P.ptr(a))) SIM_PROBE("algo: parent and child swapped"); }
    else { P.owner[a] = FREE; A::init(N(a)); }
  }
  void op_replace(const Step &s, int t) {
    if (m[t].empty()) return skip();
    int p = (int)(s.b % m[t].size()), id = m[t][p], n = P.take_free(s.c); if (n < 0) return skip();
    P.rekey(n, P.key[id], P.prio[id]);
    if (s.d & 1) A::replace_node(N(id), H(t), N(n)); else A::replace_node(N(id), N(n));
    A::init(N(id)); P.owner[id] = FREE; m[t][p] = n; P.owner[n] = t;
  }
  struct Dctx { AlgoEngine *w; vec<int> got; };
  struct Disp { Dctx *d; void operator()(const NP &p) const { AlgoEngine &w = *d->w; int id = w.P.id_of(w.raw(p)); if (id < 0) fail("dispose", "disposer called with something that is not a node"); for (int x : d->got) if (x == id) fail("dispose", "disposer called twice for node %d", id); d->got.push_back(id); w.P.tmpmark[id] = 0; w.P.poison(id); } };
  struct Cctx { AlgoEngine *w; vec<int> src, dst, old; };
  struct Cln { Cctx *x; NP operator()(const NP &s) const {
      AlgoEngine &w = *x->w; int id = w.P.id_of(w.raw(s)); if (id < 0) fail("clone", "cloner called with something that is not a node");
      fcall(F_CLONE);
      int n = -1; for (int i = 0; i < w.P.N && n < 0; ++i) if (!w.P.tmpmark[i] && (w.P.pick(i) || w.P.owner[i] == DEAD) && std::find(x->old.begin(), x->old.end(), i) == x->old.end()) n = i;
      if (n < 0) fail("clone", "cloner called more often than there are source nodes");
      if (w.P.owner[n] == DEAD) w.P.create(n, 0, 0);
      A::init(w.N(n));
      w.P.tmpmark[n] = 1; w.P.rekey(n, w.P.key[id], w.P.prio[id]);
      x->src.push_back(id); x->dst.push_back(n); return w.N(n); } };
  void op_clone(const Step &s, int t) {
    int u = (t + 1 + (int)(s.b % 2)) % 3;
    size_t freec = 0; for (int i = 0; i < P.N; ++i) freec += P.owner[i] == FREE || P.owner[i] == DEAD;
    if (freec < m[t].size()) return skip();
    vec<int> old = m[u];
    Cctx x{this, {}, {}, old}; Dctx d{this, {}};
    m[u].clear();
    Arm arm(s, SIM_BIT(F_CLONE));
    bool threw = attempt([&] { A::clone(CH(t), H(u), Cln{&x}, Disp{&d}); });
    vec<int> want = old; if (threw) want.insert(want.end(), x.dst.begin(), x.dst.end());
    // disposing poisons the nodes, so a node may be recycled by the cloner: compare as multisets
    if (threw) { if (d.got.size() < old.size()) fail("clone", "old nodes were not disposed"); for (int n : x.dst) { bool in = std::find(d.got.begin(), d.got.end(), n) != d.got.end(); if (!in) fail("clone", "clone %d was not disposed although the cloner threw", n); } SIM_PROBE("algo: clone threw"); }
    else {
      expect_ids(sorted(d.got), sorted(old), "dispose", "clone");
      if (x.src.size() != m[t].size()) fail("clone", "cloner called %zu times for %zu nodes", x.src.size(), m[t].size());
      for (int id : m[t]) { size_t i = std::find(x.src.begin(), x.src.end(), id) - x.src.begin(); if (i == x.src.size()) fail("clone", "node %d was not cloned", id); m[u].push_back(x.dst[i]); P.owner[x.dst[i]] = u; }
      if constexpr (KIND == AK_SG) maxsz[u] = maxsz[t]; sgmax[u] = sgmax[t];
      if (m[t].empty()) SIM_PROBE("algo: clone of an empty tree");
    }
    for (int n : x.dst) P.tmpmark[n] = 0;
    if (threw) { maxsz[u] = sgmax[u] = 0; }
  }
  void op_clear(const Step &, int t) {
    Dctx d{this, {}}; vec<int> old = m[t]; m[t].clear();
    A::clear_and_dispose(H(t), Disp{&d});
    expect_ids(sorted(d.got), sorted(old), "dispose", "clear_and_dispose");
    maxsz[t] = sgmax[t] = 0;
  }
  void lookup(int t, int k, u32 sel, bool cst) {
    int lo = lower(t, k), hi = upper(t, k);
    auto go = [&](auto h) {
      switch (sel % 6) {
      case 0: expect_pos(t, A::lower_bound(h, k, KCmp()), lo, "lower_bound"); break;
      case 1: expect_pos(t, A::upper_bound(h, k, KCmp()), hi, "upper_bound"); break;
      case 2: { int p = pos_of(t, A::find(h, k, KCmp()), "find"); if (lo == hi ? p != (int)m[t].size() : p != lo) fail("wrong-result", "find(%d) is position %d, equal range [%d,%d)", k, p, lo, hi); break; }
      case 3: { auto r = A::equal_range(h, k, KCmp()); expect_pos(t, r.first, lo, "equal_range.first"); expect_pos(t, r.second, hi, "equal_range.second"); break; }
      case 4: if ((int)A::count(h, k, KCmp()) != hi - lo) fail("wrong-result", "count(%d)", k); break;
      case 5: { auto r = A::lower_bound_range(h, k, KCmp()); expect_pos(t, r.first, lo, "lower_bound_range.first"); expect_pos(t, r.second, lo + (lo != hi), "lower_bound_range.second"); break; }
      }
    };
    if (cst) go(CH(t)); else go(H(t));
  }
  void bounded(int t, int a, int b, bool lc, bool rc, bool cst) {
    if (a > b) std::swap(a, b);
    if (a == b && !lc && !rc) lc = true;
    int f = lc ? lower(t, a) : upper(t, a), l = rc ? upper(t, b) : lower(t, b);
    std::pair<NP, NP> r = cst ? A::bounded_range(CH(t), a, b, KCmp(), lc, rc) : A::bounded_range(H(t), a, b, KCmp(), lc, rc);
    expect_pos(t, r.first, f, "bounded_range.first"); expect_pos(t, r.second, l, "bounded_range.second");
  }
  void op_xfer(const Step &s, int t) {
    int u = (t + 1 + (int)(s.b % 2)) % 3;
    if (m[u].empty()) return skip();
    int p = (int)(s.c % m[u].size()), id = m[u][p], lo = lower(t, P.key[id]), hi = upper(t, P.key[id]);
    bool uni = s.d & 1, did = true;
    Arm arm(s, INSF);
    if (attempt([&] {
          if constexpr (KIND == AK_TREAP) { if (uni) did = A::transfer_unique(H(t), KCmp(), PCmp(), H(u), N(id)); else A::transfer_equal(H(t), KCmp(), PCmp(), H(u), N(id)); }
          else if constexpr (KIND == AK_SG) { if (uni) did = A::transfer_unique(H(t), KCmp(), m[t].size(), maxsz[t], H(u), N(id), m[u].size(), maxsz[u], HAlpha(), AMax()); else A::transfer_equal(H(t), KCmp(), m[t].size(), maxsz[t], H(u), N(id), m[u].size(), maxsz[u], HAlpha(), AMax()); }
          else { if (uni) did = A::transfer_unique(H(t), KCmp(), H(u), N(id)); else A::transfer_equal(H(t), KCmp(), H(u), N(id)); }
        })) { SIM_PROBE("algo: transfer threw"); return; }
    if (uni && did != (lo == hi)) fail("wrong-result", "transfer_unique returned %d", (int)did);
    if (did) { take(u, p); put(t, hi, id); }
  }
  void op_leftmost(int t) {
    if (KIND == AK_RB || KIND == AK_AVL) {                         // leaves the tree unbalanced: only to take a whole tree apart
      vec<int> got;
      for (NP p = A::unlink_leftmost_without_rebalance(H(t)); p; p = A::unlink_leftmost_without_rebalance(H(t))) { int id = P.id_of(raw(p)); if (id < 0 || got.size() >= m[t].size()) fail("wrong-result", "unlink_leftmost_without_rebalance returned a wrong node"); got.push_back(id); A::init(p); }
      if (got != m[t]) fail("wrong-result", "unlink_leftmost_without_rebalance order");
      for (int id : got) P.owner[id] = FREE;
      m[t].clear(); return;
    }
    NP p = A::unlink_leftmost_without_rebalance(H(t));
    if (m[t].empty()) { if (p) fail("wrong-result", "unlink_leftmost_without_rebalance of an empty tree"); return; }
    if (!p || raw(p) != P.ptr(m[t][0])) fail("wrong-result", "unlink_leftmost_without_rebalance returned a wrong node");
    A::init(p); take(t, 0);
  }
  void info(int t, u32 b) {
    if (A::unique(CNP(H(t))) && !m[t].empty()) fail("wrong-result", "unique(header) of a non-empty tree");
    if (raw(A::end_node(CH(t))) != raw(H(t))) fail("wrong-result", "end_node");
    if (raw(A::begin_node(CH(t))) != (m[t].empty() ? raw(H(t)) : P.ptr(m[t][0]))) fail("wrong-result", "begin_node");
    if (raw(A::root_node(CH(t))) != (m[t].empty() ? raw(H(t)) : raw(NT::get_parent(H(t))))) fail("wrong-result", "root_node");
    if (!A::is_header(CH(t))) fail("wrong-result", "is_header(header) is false");
    if (m[t].empty()) return;
    int p = (int)(b % m[t].size()); NP n = N(m[t][p]);
    if (raw(A::get_header(CNP(n))) != raw(H(t))) fail("wrong-result", "get_header of a node is not its header");
    if (A::is_header(CNP(n))) fail("wrong-result", "is_header of an ordinary node is true");
    if (A::unique(CNP(n))) fail("wrong-result", "unique() of a linked node");
    expect_pos(t, A::next_node(n), p + 1, "next_node");
    if (p) expect_pos(t, A::prev_node(n), p - 1, "prev_node");
    { NP q = n; size_t d = 0; while (raw(q) != raw(NT::get_parent(H(t)))) { q = NT::get_parent(q); ++d; } if (A::depth(CNP(n)) != d) fail("wrong-result", "depth() is %zu, expected %zu", A::depth(CNP(n)), d); }
  }
  struct RCtx { AlgoEngine *w; u64 seed; int nops; };
  static void reader(void *v, int f) {
    RCtx &r = *(RCtx *)v; AlgoEngine &w = *r.w; Rng g_(mix(r.seed, f));
    for (int i = 0; i < r.nops; ++i) { int t = (int)g_.below(3); switch (g_.below(3)) { case 0: w.lookup(t, (int)g_.below(w.keyrange), g_.below(6), true); break; case 1: w.bounded(t, (int)g_.below(w.keyrange), (int)g_.below(w.keyrange), g_.chance(1, 2), g_.chance(1, 2), true); break; case 2: w.info(t, g_.below(4096)); break; } }
  }
  static void writer(void *v, int f) {
    RCtx &r = *(RCtx *)v; AlgoEngine &w = *r.w; Rng g_(mix(r.seed, f));
    for (int i = 0; i < r.nops; ++i) {
      int t = f;
      switch (g_.below(4)) {
      case 0: case 1: { int id = -1; for (int d = 0, st = (int)g_.below(w.P.N); d < w.P.N && id < 0; ++d) { int j = (st + d) % w.P.N; if (j % 3 == f && w.P.pick(j)) id = j; } if (id < 0) break; int hi = w.upper(t, w.P.key[id]); w.ins(t, 0, w.H(t), w.N(id)); w.put(t, hi, id); break; }
      case 2: if (!w.m[t].empty()) { int p = (int)g_.below((u32)w.m[t].size()), id = w.m[t][p]; w.erase(t, w.N(id)); A::init(w.N(id)); w.take(t, p); } break;
      case 3: w.lookup(t, (int)g_.below(w.keyrange), g_.below(6), false); break;
      }
    }
  }
  void step(const Step &s) {
    int t = (int)(s.a % 3);
    switch (s.op) {
    case G_UPPER: case G_LOWER: case G_HINT: op_insert(s, t); break;
    case G_CHECK: case G_CHECK_HINT: op_check(s, t); break;
    case G_BEFORE: case G_BACK: case G_FRONT: op_positional(s, t); break;
    case G_ERASE: case G_UNLINK: op_erase(s, t); break;
    case G_SWAP_NODES: op_swap_nodes(s); break;
    case G_REPLACE: op_replace(s, t); break;
    case G_SWAP_TREE: { int u = (t + 1 + (int)(s.b % 2)) % 3; A::swap_tree(H(t), H(u)); m[t].swap(m[u]); std::swap(maxsz[t], maxsz[u]); std::swap(sgmax[t], sgmax[u]); for (int id : m[t]) P.owner[id] = t; for (int id : m[u]) P.owner[id] = u; break; }
    case G_CLONE: op_clone(s, t); break;
    case G_CLEAR: op_clear(s, t); break;
    case G_LOOKUP: { Arm arm(s, SIM_BIT(F_CMP)); attempt([&] { lookup(t, (int)(s.b % keyrange), s.c, s.d & 1); }); break; }
    case G_BOUNDED: bounded(t, (int)(s.b % keyrange), (int)(s.c % keyrange), s.d & 1, s.d & 2, s.d & 4); break;
    case G_XFER: op_xfer(s, t); break;
    case G_LEFTMOST: op_leftmost(t); break;
    case G_REBALANCE: if constexpr (KIND == AK_BS || KIND == AK_SG || KIND == AK_SPLAY) { A::rebalance(H(t)); } else skip(); break;
    case G_REBALANCE_SUB: if constexpr (KIND == AK_BS || KIND == AK_SG || KIND == AK_SPLAY) {
        if (m[t].empty()) return skip();
        NP n = N(m[t][s.b % m[t].size()]); NP par = NT::get_parent(n); bool left = raw(par) != raw(H(t)) && raw(NT::get_left(par)) == raw(n);
        NP r = A::rebalance_subtree(n);
        NP now = raw(par) == raw(H(t)) ? NT::get_parent(par) : left ? NT::get_left(par) : NT::get_right(par);
        if (raw(r) != raw(now)) fail("wrong-result", "rebalance_subtree does not return the new subtree root");
      } else skip(); break;
    case G_SPLAY_UP: if constexpr (KIND == AK_SPLAY) { if (m[t].empty()) return skip(); int id = m[t][s.b % m[t].size()]; A::splay_up(N(id), H(t)); if (raw(NT::get_parent(H(t))) != P.ptr(id)) fail("wrong-result", "splay_up did not make the node the root"); } else skip(); break;
    case G_SPLAY_DOWN: if constexpr (KIND == AK_SPLAY) { int k = (int)(s.b % keyrange); bool found = false; Arm arm(s, SIM_BIT(F_CMP)); NP r; if (attempt([&] { r = A::splay_down(H(t), k, KCmp(), &found); })) return; if (!m[t].empty()) { if (raw(r) != raw(NT::get_parent(H(t)))) fail("wrong-result", "splay_down does not return the root"); bool has = lower(t, k) != upper(t, k); if (has != found || (has && r->key != k)) fail("wrong-result", "splay_down(%d): found=%d", k, (int)found); } } else skip(); break;
    case G_INFO: info(t, s.b); break;
    case G_RELOCATE: if (RELOC) arena_relocate(); else skip(); break;
    case G_READERS: { RCtx r{this, mix(tr->seed, si), 2 + (int)(s.b % 5)}; arena_protect(true); Fibers::run(2 + (int)(s.a % 3), reader, &r, tr->sched, schedpos); arena_protect(false); break; }
    case G_PARALLEL: { RCtx r{this, mix(tr->seed, si), 3 + (int)(s.b % 5)}; Fibers::run(3, writer, &r, tr->sched, schedpos); break; }
    case G_BULK: { int k = 8 + (int)(s.b % 64), pat = (int)(s.c % 3);
      for (int i = 0; i < k; ++i) { int id = P.take_free(s.d + i); if (id < 0) break; P.rekey(id, pat == 0 ? i * keyrange / k : pat == 1 ? keyrange - 1 - i * keyrange / k : (int)(mix(s.d, i) % keyrange), (int)(mix(s.c, i) % 1000)); int hi = upper(t, P.key[id]); ins(t, 0, H(t), N(id)); put(t, hi, id); } break; }
    }
  }
  static void run(const Trace &t) {
    static AlgoEngine *w = nullptr; delete w; w = new AlgoEngine; w->start(t); w->oracle();
    for (u32 i = 0; i < t.steps.size(); ++i) {
      const Step &s = t.steps[i]; w->si = i; g.slot->step = i; g.in_step = true; w->skipped = false; w->P.step_begin();
      op_begin(algo_opname(s.op));
      log("step %u %s a=%u b=%u c=%u d=%u fault=%u@%u", i, algo_opname(s.op), s.a, s.b, s.c, s.d, s.fk, s.fn);
      w->step(s);
      w->P.step_end(); ++g.slot->steps; if (w->skipped) ++g.slot->op_skipped; else ++g.slot->op_done;
      if (oracle_due(t, i, G_READERS)) w->oracle();
    }
  }
  static void gen(Rng &r, const Mode &md, Trace &t) {
    Focus f = focus_of(md.prop);
    bool big = r.chance(1, f.bulk ? 3 : 14);
    int n = big ? (int)r.range(60, 160) : (int)r.range(2, r.chance(1, 3) ? 40 : 12);
    t.params = {(u32)n, (u32)(r.chance(1, 2) ? n : r.range(1, 4 * n))};
    OpMix w(G_NOPS);
    static const u32 base[G_NOPS] = {20, 8, 8, 8, 6, 8, 5, 5, 16, 8, 10, 8, 3, 4, 1, 8, 4, 8, 3, 2, 3, 3, 3, 5, RELOC ? 3 : 0, 1, 1, 1};
    for (u32 i = 0; i < G_NOPS; ++i) w.set(i, base[i]);
    if (KIND != AK_SPLAY) w.set(G_SPLAY_UP, 0), w.set(G_SPLAY_DOWN, 0);
    if (KIND == AK_RB || KIND == AK_AVL || KIND == AK_TREAP) w.set(G_REBALANCE, 0), w.set(G_REBALANCE_SUB, 0), w.set(G_LEFTMOST, 1);
    if (KIND == AK_SG) w.set(G_UNLINK, 0);
    w.swarm(r);
    if (w.w[G_UPPER] < 20) w.w[G_UPPER] = 20;
    auto b_ = [&](u32 op, u32 v) { if (base[op]) w.w[op] = std::max(w.w[op], v); };
    if (big) w.w[G_BULK] = 15, w.w[G_CLEAR] = 0, w.w[G_LEFTMOST] = 0;
    if (f.nodes) { b_(G_SWAP_NODES, 30); b_(G_REPLACE, 15); b_(G_UNLINK, 10); }
    if (f.clone) b_(G_CLONE, 40);
    if (f.transfer) b_(G_XFER, 40);
    if (f.commit) { b_(G_CHECK, 30); b_(G_CHECK_HINT, 30); b_(G_HINT, 20); }
    if (f.readers) b_(G_READERS, 30);
    if (f.parallel) b_(G_PARALLEL, 30);
    if (f.reloc) b_(G_RELOCATE, 25);
    if (KIND == AK_SG) w.w[G_UNLINK] = 0;
    int steps = (int)r.range(8, big ? 40 : 60); bool fib = false;
    for (int i = 0; i < steps; ++i) {
      Step s; s.op = i < 3 ? (big ? (u32)G_BULK : (u32)G_UPPER) : w.pick(r);
      s.a = r.below(64); if (r.chance(1, 2)) s.a -= s.a % 3;
      s.b = r.below(4096); s.c = r.below(4096); s.d = r.below(4096);
      if (r.below(100) < (f.faults ? 45u : 8u)) { s.fk = s.op == G_CLONE ? (u32)F_CLONE : KIND == AK_TREAP && r.chance(1, 2) ? (u32)F_PRIO : (u32)F_CMP; s.fn = r.range(1, r.chance(1, 2) ? 4 : 16); }
      fib |= s.op == G_READERS || s.op == G_PARALLEL;
      t.steps.push_back(s);
    }
    if (fib) { u32 k = r.chance(1, 4) ? 6 : 200, style = r.below(3); for (u32 i = 0; i < k; ++i) t.sched.push_back(r.below(8) | ((style == 0 ? 0 : style == 1 ? r.below(4) : r.below(40)) << 3)); }
  }
  static CfgEntry entry(const char *name) { return CfgEntry{name, "algo", gen, run, algo_opname}; }
};
} // namespace sim
#define SIM_ALGO_CONFIG(KIND, LAYOUT, NAME) static ::sim::Registrar reg_##NAME(::sim::AlgoEngine<::sim::KIND, ::sim::LAYOUT>::entry(#NAME));

// Elements, user functors, disposers and cloners shared by every engine.
#pragma once
#include "sim.hpp"
#include "sim_ptr.hpp"
#include <type_traits>
#include <boost/intrusive/link_mode.hpp>

namespace sim {
enum { MAGIC = 0x5EED1E55, DEADMAGIC = 0xDBDBDBDB };

// The library may neither copy nor assign elements; the harness itself does so in a CopyOk scope.
struct CopyOk { CopyOk() { ++g.copy_ok; } ~CopyOk() { --g.copy_ok; } };
struct Data {
  int key, prio, id;
  unsigned magic;
  Data() : key(0), prio(0), id(-1), magic(MAGIC) {}
  Data(const Data &o) : key(o.key), prio(o.prio), id(o.id), magic(o.magic) { copied(); }
  Data &operator=(const Data &o) { copied(); key = o.key; prio = o.prio; id = o.id; magic = o.magic; return *this; }
  static void copied() { if (g.in_step && !g.quiet && !g.copy_ok) fail("element-copied", "the library copied an element"); }
};
struct HKey { int key, grain; };                    // a key type unrelated to the element type
struct HPrio { int prio; };

// strict weak orders selected at run time: ascending, descending, coarse
inline bool key_less(int mode, int a, int b) { return mode == 0 ? a < b : mode == 1 ? b < a : a / 4 < b / 4; }
inline int kk(const Data &d) { return d.key; }
inline int kk(int k) { return k; }
inline int pp(const Data &d) { return d.prio; }
inline int pp(int p) { return p; }
inline int pp(const HPrio &p) { return p.prio; }

template <int Tag> struct CmpT {                     // key comparison functor (stateful, may throw)
  int mode;
  CmpT(int m = 0) : mode(m) {}
  CmpT(const CmpT &) = default;
  CmpT &operator=(const CmpT &o) { fcopy(); mode = o.mode; return *this; }
  template <class A, class B> bool operator()(const A &a, const B &b) const { fcall(F_CMP); return key_less(mode, kk(a), kk(b)); }
};
typedef CmpT<0> Cmp;
typedef CmpT<1> AltCmp;
struct HCmp {                                        // heterogeneous comparison
  int mode;
  template <class B> bool operator()(const HKey &a, const B &b) const { fcall(F_CMP); return key_less(mode, a.key / a.grain, kk(b) / a.grain); }
  template <class A> bool operator()(const A &a, const HKey &b) const { fcall(F_CMP); return key_less(mode, kk(a) / b.grain, b.key / b.grain); }
  bool operator()(const HKey &a, const HKey &b) const { fcall(F_CMP); return key_less(mode, a.key / a.grain, b.key / b.grain); }
};
struct PrioCmp {                                     // treap priority order
  int mode;
  PrioCmp(int m = 0) : mode(m) {}
  PrioCmp(const PrioCmp &) = default;
  PrioCmp &operator=(const PrioCmp &o) { fcopy(); mode = o.mode; return *this; }
  template <class A, class B> bool operator()(const A &a, const B &b) const { fcall(F_PRIO); return mode ? pp(b) < pp(a) : pp(a) < pp(b); }
};
struct KeyOf { typedef int type; const int &operator()(const Data &d) const { return d.key; } };
struct PrioOf { typedef int type; const int &operator()(const Data &d) const { return d.prio; } };

// An iterator over element pointers, as a user would pass to range functions.
template <class E> struct PtrIter {
  typedef std::forward_iterator_tag iterator_category;
  typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E *pointer; typedef E &reference;
  E *const *p;
  explicit PtrIter(E *const *q = nullptr) : p(q) {}
  E &operator*() const { return **p; }
  E *operator->() const { return *p; }
  PtrIter &operator++() { ++p; return *this; }
  PtrIter operator++(int) { PtrIter t(*this); ++p; return t; }
  friend bool operator==(const PtrIter &a, const PtrIter &b) { return a.p == b.p; }
  friend bool operator!=(const PtrIter &a, const PtrIter &b) { return a.p != b.p; }
};

// ---------------------------------------------------------------- element layouts
template <class Hook> struct BaseE : public Hook, public Data {
  typedef Hook hook_t;
  static Hook &hook(BaseE &e) { return e; }
  friend bool operator<(const BaseE &a, const BaseE &b) { fcall(F_CMP); return a.key < b.key; }
  friend bool operator==(const BaseE &a, const BaseE &b) { fcall(F_EQ); return a.key == b.key; }
};
template <class Hook> struct MemberE : public Data {
  typedef Hook hook_t;
  long pad;
  Hook h;
  long pad2;
  static Hook &hook(MemberE &e) { return e.h; }
  friend bool operator<(const MemberE &a, const MemberE &b) { fcall(F_CMP); return a.key < b.key; }
  friend bool operator==(const MemberE &a, const MemberE &b) { fcall(F_EQ); return a.key == b.key; }
};
// an element that derives from the bare node (derivation_value_traits): no hook, the user initialises the node
template <class Node, class Algo> struct DerivE : public Node, public Data {
  DerivE() { Algo::init(node()); }
  DerivE(const DerivE &o) : Node(), Data(o) { Algo::init(node()); }
  DerivE &operator=(const DerivE &) = delete;
  typename Algo::node_ptr node() { return boost::intrusive::pointer_traits<typename Algo::node_ptr>::pointer_to(static_cast<Node &>(*this)); }
  friend bool operator<(const DerivE &a, const DerivE &b) { fcall(F_CMP); return a.key < b.key; }
  friend bool operator==(const DerivE &a, const DerivE &b) { fcall(F_EQ); return a.key == b.key; }
};
// function_hook access to a member hook
template <class Hook> struct FuncHook {
  typedef Hook hook_type;
  typedef Hook *hook_ptr;
  typedef const Hook *const_hook_ptr;
  typedef MemberE<Hook> value_type;
  typedef value_type *pointer;
  typedef const value_type *const_pointer;
  static hook_ptr to_hook_ptr(value_type &v) { return &v.h; }
  static const_hook_ptr to_hook_ptr(const value_type &v) { return &v.h; }
  static ptrdiff_t off() { alignas(value_type) static char b[sizeof(value_type)]; value_type *v = (value_type *)b; return (char *)&v->h - (char *)v; }
  static pointer to_value_ptr(hook_ptr n) { return (pointer)((char *)n - off()); }
  static const_pointer to_value_ptr(const_hook_ptr n) { return (const_pointer)((const char *)n - off()); }
};
} // namespace sim

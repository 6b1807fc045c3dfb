#pragma once
#ifndef SIM_ALTCMP
#define SIM_ALTCMP AltCmp
#endif
#include "../sim/tree_engine.hpp"
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
namespace bi = boost::intrusive;
using namespace sim;
// facade pairs: main container, and the opposite multiplicity with another comparison type
#define SIM_SETCFG(NAME, KIND_, UNIQ_, ELEM_, MAIN_, OPP_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const int kind = KIND_; static const bool unique = UNIQ_; static const bool reloc = SIM_RELOC, any = SIM_ANY; \
    typedef bi::MAIN_<E, bi::compare<Cmp>, __VA_ARGS__> C; typedef bi::OPP_<E, bi::compare<SIM_ALTCMP>, __VA_ARGS__> A; }; } \
  SIM_TREE_CONFIG(NAME, #NAME)
// the tree containers used directly (bi::rbtree etc., with their insert_unique / insert_equal names) instead of the set facades
namespace sim {
template <class B, bool U> struct RawTree : B {
  typedef typename B::key_compare KC; typedef typename B::iterator It; typedef typename B::const_iterator CIt;
  static const bool raw_multi = !U;
  RawTree() {}
  template <class... X> explicit RawTree(const KC &c, const X &...x) : B(c, x...) {}
  template <class I, class... X> RawTree(I b, I e, const X &...x) : B(U, b, e, x...) {}
  RawTree(RawTree &&x) : B(static_cast<B &&>(x)) {}
  RawTree &operator=(RawTree &&x) { return static_cast<RawTree &>(B::operator=(static_cast<B &&>(x))); }
  auto insert(typename B::reference v) { if constexpr (U) return B::insert_unique(v); else return B::insert_equal(v); }
  It insert(CIt h, typename B::reference v) { if constexpr (U) return B::insert_unique(h, v); else return B::insert_equal(h, v); }
  template <class I> void insert(I b, I e) { if constexpr (U) B::insert_unique(b, e); else B::insert_equal(b, e); }
  template <class... X> auto insert_check(X &&...x) { return B::insert_unique_check(static_cast<X &&>(x)...); }
  It insert_commit(typename B::reference v, const typename B::insert_commit_data &d) { return B::insert_unique_commit(v, d); }
  template <class S> void merge(S &s) { if constexpr (U) B::merge_unique(s); else B::merge_equal(s); }
  static RawTree &container_from_end_iterator(It i) { return static_cast<RawTree &>(B::container_from_end_iterator(i)); }
  static const RawTree &container_from_end_iterator(CIt i) { return static_cast<const RawTree &>(B::container_from_end_iterator(i)); }
  static RawTree &container_from_iterator(It i) { return static_cast<RawTree &>(B::container_from_iterator(i)); }
  static const RawTree &container_from_iterator(CIt i) { return static_cast<const RawTree &>(B::container_from_iterator(i)); }
};
}
#define SIM_RAWCFG(NAME, KIND_, UNIQ_, ELEM_, TREE_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const int kind = KIND_; static const bool unique = UNIQ_; static const bool reloc = SIM_RELOC, any = SIM_ANY; \
    typedef RawTree<bi::TREE_<E, bi::compare<Cmp>, __VA_ARGS__>, UNIQ_> C; typedef RawTree<bi::TREE_<E, bi::compare<SIM_ALTCMP>, __VA_ARGS__>, !UNIQ_> A; }; } \
  SIM_TREE_CONFIG(NAME, #NAME)

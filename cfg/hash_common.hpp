#pragma once
#include "../sim/hash_engine.hpp"
#include <boost/intrusive/any_hook.hpp>
using namespace sim;
// UNIQ selects unordered_set / unordered_multiset
#define SIM_HASHCFG(NAME, UNIQ_, RELOC_, ANY_, ELEM_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const bool unique = UNIQ_, reloc = RELOC_, any = ANY_; \
    template <bool B, class D> struct Pick { typedef bi::unordered_set<ELEM_, bi::hash<HashT>, bi::equal<EqT>, __VA_ARGS__> type; }; \
    template <class D> struct Pick<false, D> { typedef bi::unordered_multiset<ELEM_, bi::hash<HashT>, bi::equal<EqT>, __VA_ARGS__> type; }; \
    typedef typename Pick<UNIQ_, void>::type C; }; } \
  SIM_HASH_CONFIG(NAME, #NAME)
// bi::hashtable used directly instead of the unordered facades
namespace sim {
template <class B, bool U> struct RawHash : B {
  static const bool raw_multi = !U;
  typedef typename B::iterator It;
  template <class... X> explicit RawHash(const typename B::bucket_traits &b, const X &...x) : B(b, x...) {}
  template <class I, class... X> RawHash(I b, I e, const typename B::bucket_traits &t, const X &...x) : B(t, x...) { insert(b, e); }  // hashtable itself has no range constructor
  RawHash(RawHash &&x) : B(static_cast<B &&>(x)) {}
  RawHash &operator=(RawHash &&x) { return static_cast<RawHash &>(B::operator=(static_cast<B &&>(x))); }
  auto insert(typename B::reference v) { if constexpr (U) return B::insert_unique(v); else return B::insert_equal(v); }
  template <class I> void insert(I b, I e) { if constexpr (U) B::insert_unique(b, e); else B::insert_equal(b, e); }
  template <class... X> auto insert_check(X &&...x) { return B::insert_unique_check(static_cast<X &&>(x)...); }
  It insert_commit(typename B::reference v, const typename B::insert_commit_data &d) { return B::insert_unique_commit(v, d); }
  It insert_fast_commit(typename B::reference v, const typename B::insert_commit_data &d) { return B::insert_unique_fast_commit(v, d); }
};
}
#define SIM_RAWHASHCFG(NAME, UNIQ_, RELOC_, ANY_, ELEM_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const bool unique = UNIQ_, reloc = RELOC_, any = ANY_; \
    typedef RawHash<bi::hashtable<ELEM_, bi::hash<HashT>, bi::equal<EqT>, __VA_ARGS__>, UNIQ_> C; }; } \
  SIM_HASH_CONFIG(NAME, #NAME)

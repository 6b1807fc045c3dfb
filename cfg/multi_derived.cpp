// containers of base classes and of the derived class over the same objects; hooks inherited
// through several levels and members of a base class; function hooks
#include "multi_common.hpp"
namespace {
struct t1; struct t2;
typedef bi::list_base_hook<bi::tag<t1>> L1;
typedef bi::list_base_hook<bi::tag<t2>> L2;
typedef bi::set_member_hook<> R1;
typedef bi::avl_set_base_hook<> A1;
typedef bi::unordered_set_member_hook<> H1;
typedef bi::slist_member_hook<> S1;
struct Base : public Data, public L1 { virtual ~Base() {} R1 r; char c; SIM_CMPOPS(Base) };
struct Mid : public Base, public A1 { char d; H1 h; SIM_CMPOPS(Mid) };
struct Other { virtual ~Other() {} long x[3]; };
struct E0 : public Other, public Mid, public L2 { S1 s; SIM_CMPOPS(E0) };
struct FH {
  typedef S1 hook_type; typedef S1 *hook_ptr; typedef const S1 *const_hook_ptr; typedef E0 value_type; typedef E0 *pointer; typedef const E0 *const_pointer;
  static hook_ptr to_hook_ptr(E0 &v) { return &v.s; }
  static const_hook_ptr to_hook_ptr(const E0 &v) { return &v.s; }
  static pointer to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<E0>(n, &E0::s); }
  static const_pointer to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<E0>(n, &E0::s); }
};
struct Cfg {
  typedef E0 E;
  static const bool reloc = false;
  static void setup(MultiWorld<E> &w) {
    w.add<SeqBox<E, Base, bi::list<Base, bi::base_hook<L1>>, AsBase<E, L1>>>(0);
    w.add<SeqBox<E, E, bi::list<E, bi::base_hook<L2>>, AsBase<E, L2>>>(1);
    w.add<TreeBox<E, Base, bi::set<Base, bi::member_hook<Base, R1, &Base::r>, KC>, AsMember<Base, R1, &Base::r>, true>>(2);
    w.add<TreeBox<E, Base, bi::multiset<Base, bi::member_hook<Base, R1, &Base::r>, KC>, AsMember<Base, R1, &Base::r>, false>>(2);
    w.add<TreeBox<E, E, bi::avl_multiset<E, bi::base_hook<A1>, KC>, AsBase<E, A1>, false>>(3);
    w.add<TreeBox<E, Mid, bi::avl_set<Mid, bi::base_hook<A1>, KC>, AsBase<E, A1>, true>>(3);
    w.add<HashBox<E, Mid, bi::unordered_multiset<Mid, bi::member_hook<Mid, H1, &Mid::h>, bi::hash<MHash>, bi::equal<MEq>>, AsMember<Mid, H1, &Mid::h>, false>>(4);
    w.add<SeqBox<E, E, bi::slist<E, bi::function_hook<FH>>, AsMember<E, S1, &E::s>>>(5);
  }
};
}
SIM_MULTI_CONFIG(Cfg, "multi_derived")

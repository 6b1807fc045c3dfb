// hooks that serve any container kind, in turn
#include "multi_common.hpp"
namespace {
struct t1; struct t2;
typedef bi::any_base_hook<bi::tag<t1>> Y1;
typedef bi::any_base_hook<bi::tag<t2>, bi::link_mode<bi::normal_link>> Y2;
typedef bi::any_member_hook<> Y3;
struct E0 : public Y1, public Data, public Y2 { char c; Y3 y3; char d; Y3 y4; SIM_CMPOPS(E0) };
template <class BH, class G> struct Kinds {
  typedef E0 E;
  static void add(MultiWorld<E> &w, int grp) {
    w.add<SeqBox<E, E, bi::list<E, bi::any_to_list_hook<BH>>, G>>(grp);
    w.add<SeqBox<E, E, bi::slist<E, bi::any_to_slist_hook<BH>, bi::cache_last<true>>, G>>(grp);
    w.add<TreeBox<E, E, bi::set<E, bi::any_to_set_hook<BH>, KC>, G, true>>(grp, 1);
    w.add<TreeBox<E, E, bi::multiset<E, bi::any_to_set_hook<BH>, KC, NCT>, G, false>>(grp, 1);
    w.add<TreeBox<E, E, bi::avl_multiset<E, bi::any_to_avl_set_hook<BH>, KC>, G, false>>(grp);
    w.add<TreeBox<E, E, bi::sg_set<E, bi::any_to_bs_set_hook<BH>, KC>, G, true>>(grp, 1);
    w.add<TreeBox<E, E, bi::splay_multiset<E, bi::any_to_bs_set_hook<BH>, KC>, G, false>>(grp, 1);
    w.add<TreeBox<E, E, bi::treap_set<E, bi::any_to_bs_set_hook<BH>, KC, PC>, G, true>>(grp, 1);
    w.add<HashBox<E, E, bi::unordered_set<E, bi::any_to_unordered_set_hook<BH>, bi::hash<MHash>, bi::equal<MEq>>, G, true>>(grp, 1);
    w.add<HashBox<E, E, bi::unordered_multiset<E, bi::any_to_unordered_set_hook<BH>, bi::hash<MHash>, bi::equal<MEq>, bi::cache_begin<true>>, G, false>>(grp, 1);
  }
};
struct Cfg {
  typedef E0 E;
  static const bool reloc = false;
  static void setup(MultiWorld<E> &w) {
    Kinds<bi::base_hook<Y1>, AsBase<E, Y1>>::add(w, 0);
    Kinds<bi::base_hook<Y2>, AsBase<E, Y2>>::add(w, 1);
    Kinds<bi::member_hook<E, Y3, &E::y3>, AsMember<E, Y3, &E::y3>>::add(w, 2);
    Kinds<bi::member_hook<E, Y3, &E::y4>, AsMember<E, Y3, &E::y4>>::add(w, 3);
  }
};
}
SIM_MULTI_CONFIG(Cfg, "multi_any")

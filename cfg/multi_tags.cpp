// base hooks told apart by tag, of every kind, user data in the middle
#include "multi_common.hpp"
namespace {
struct t1; struct t2; struct t3;
typedef bi::list_base_hook<bi::tag<t1>> L1;
typedef bi::list_base_hook<bi::tag<t2>, bi::link_mode<bi::auto_unlink>> L2;
typedef bi::slist_base_hook<bi::tag<t1>> S1;
typedef bi::slist_base_hook<bi::tag<t2>, bi::link_mode<bi::auto_unlink>> S2;
typedef bi::set_base_hook<bi::tag<t1>, bi::optimize_size<true>> R1;
typedef bi::set_base_hook<bi::tag<t2>, bi::link_mode<bi::auto_unlink>> R2;
typedef bi::avl_set_base_hook<bi::tag<t1>, bi::optimize_size<true>> A1;
typedef bi::avl_set_base_hook<bi::tag<t3>, bi::link_mode<bi::normal_link>> A2;
typedef bi::bs_set_base_hook<bi::tag<t1>> B1;
typedef bi::unordered_set_base_hook<bi::tag<t1>, bi::store_hash<true>, bi::optimize_multikey<true>> H1;
typedef bi::unordered_set_base_hook<bi::tag<t2>, bi::link_mode<bi::auto_unlink>> H2;
struct Pad { long pad[2]; };
struct E0 : public L1, public S1, public R1, public A1, public Data, public Pad, public L2, public H1, public B1, public R2, public A2, public H2, public S2 { SIM_CMPOPS(E0) };
struct Cfg {
  typedef E0 E;
  static const bool reloc = false;
  static void setup(MultiWorld<E> &w) {
    w.add<SeqBox<E, E, bi::list<E, bi::base_hook<L1>>, AsBase<E, L1>>>(0);
    w.add<SeqBox<E, E, bi::list<E, bi::base_hook<L2>, NCT>, AsBase<E, L2>>>(1);
    w.add<SeqBox<E, E, bi::slist<E, bi::base_hook<S1>, bi::cache_last<true>>, AsBase<E, S1>>>(2);
    w.add<SeqBox<E, E, bi::slist<E, bi::base_hook<S2>, NCT>, AsBase<E, S2>>>(3);
    w.add<TreeBox<E, E, bi::multiset<E, bi::base_hook<R1>, KC>, AsBase<E, R1>, false>>(4);
    w.add<TreeBox<E, E, bi::set<E, bi::base_hook<R2>, KC, NCT>, AsBase<E, R2>, true>>(5);
    w.add<TreeBox<E, E, bi::avl_set<E, bi::base_hook<A1>, KC>, AsBase<E, A1>, true>>(6);
    w.add<TreeBox<E, E, bi::avl_multiset<E, bi::base_hook<A2>, KC, NCT>, AsBase<E, A2>, false>>(7);
    // binary search tree hooks serve four kinds of container in turn
    w.add<TreeBox<E, E, bi::sg_multiset<E, bi::base_hook<B1>, KC>, AsBase<E, B1>, false>>(8, 1);
    w.add<TreeBox<E, E, bi::splay_multiset<E, bi::base_hook<B1>, KC>, AsBase<E, B1>, false>>(8, 1);
    w.add<TreeBox<E, E, bi::treap_multiset<E, bi::base_hook<B1>, KC, PC>, AsBase<E, B1>, false>>(8, 2);
    w.add<TreeBox<E, E, bi::bs_set<E, bi::base_hook<B1>, KC>, AsBase<E, B1>, true>>(8, 1);
    w.add<HashBox<E, E, bi::unordered_multiset<E, bi::base_hook<H1>, bi::hash<MHash>, bi::equal<MEq>>, AsBase<E, H1>, false>>(9);
    w.add<HashBox<E, E, bi::unordered_set<E, bi::base_hook<H2>, bi::hash<MHash>, bi::equal<MEq>, NCT, bi::power_2_buckets<true>>, AsBase<E, H2>, true>>(10);
  }
};
}
SIM_MULTI_CONFIG(Cfg, "multi_tags")

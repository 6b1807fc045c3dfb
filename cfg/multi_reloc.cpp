// hooks of every kind built on self-relative pointers; the whole block is moved during the run
#include "multi_common.hpp"
namespace {
struct t1; struct t2;
typedef bi::void_pointer<sim_ptr<void>> VP;
typedef bi::list_base_hook<bi::tag<t1>, VP> L1;
typedef bi::list_member_hook<VP, bi::link_mode<bi::auto_unlink>> L2;
typedef bi::slist_member_hook<VP> S1;
typedef bi::set_base_hook<bi::tag<t1>, VP> R1;
typedef bi::set_member_hook<VP, bi::link_mode<bi::auto_unlink>> R2;
typedef bi::avl_set_base_hook<bi::tag<t2>, VP> A1;
typedef bi::bs_set_member_hook<VP> B1;
typedef bi::unordered_set_base_hook<bi::tag<t1>, VP, bi::optimize_multikey<true>> H1;
typedef bi::any_member_hook<VP> Y1;
struct E0 : public L1, public R1, public Data, public A1, public H1 { char c; L2 l2; S1 s1; R2 r2; B1 b1; Y1 y1; SIM_CMPOPS(E0) };
#define MEM(T, M) bi::member_hook<E0, T, &E0::M>
#define GET(T, M) AsMember<E0, T, &E0::M>
struct Cfg {
  typedef E0 E;
  static const bool reloc = true;
  static void setup(MultiWorld<E> &w) {
    w.add<SeqBox<E, E, bi::list<E, bi::base_hook<L1>>, AsBase<E, L1>>>(0);
    w.add<SeqBox<E, E, bi::list<E, MEM(L2, l2), NCT>, GET(L2, l2)>>(1);
    w.add<SeqBox<E, E, bi::slist<E, MEM(S1, s1), bi::cache_last<true>>, GET(S1, s1)>>(2);
    w.add<TreeBox<E, E, bi::multiset<E, bi::base_hook<R1>, KC>, AsBase<E, R1>, false>>(3);
    w.add<TreeBox<E, E, bi::set<E, MEM(R2, r2), KC, NCT>, GET(R2, r2), true>>(4);
    w.add<TreeBox<E, E, bi::avl_set<E, bi::base_hook<A1>, KC>, AsBase<E, A1>, true>>(5);
    w.add<TreeBox<E, E, bi::treap_multiset<E, MEM(B1, b1), KC, PC>, GET(B1, b1), false>>(6, 1);
    w.add<TreeBox<E, E, bi::sg_multiset<E, MEM(B1, b1), KC>, GET(B1, b1), false>>(6, 1);
    w.add<TreeBox<E, E, bi::splay_set<E, MEM(B1, b1), KC>, GET(B1, b1), true>>(6, 1);
    w.add<HashBox<E, E, bi::unordered_multiset<E, bi::base_hook<H1>, bi::hash<MHash>, bi::equal<MEq>>, AsBase<E, H1>, false>>(7);
    w.add<SeqBox<E, E, bi::list<E, bi::any_to_list_hook<MEM(Y1, y1)>>, GET(Y1, y1)>>(8, 1);
    w.add<SeqBox<E, E, bi::slist<E, bi::any_to_slist_hook<MEM(Y1, y1)>>, GET(Y1, y1)>>(8, 1);
    w.add<HashBox<E, E, bi::unordered_set<E, bi::any_to_unordered_set_hook<MEM(Y1, y1)>, bi::hash<MHash>, bi::equal<MEq>>, GET(Y1, y1), true>>(8, 1);
  }
};
}
SIM_MULTI_CONFIG(Cfg, "multi_reloc")

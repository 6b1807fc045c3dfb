// member hooks of every kind at odd offsets of a polymorphic class, several of the same type
#include "multi_common.hpp"
namespace {
typedef bi::list_member_hook<> L1;
typedef bi::list_member_hook<bi::link_mode<bi::auto_unlink>> L2;
typedef bi::slist_member_hook<bi::link_mode<bi::safe_link>> S1;
typedef bi::set_member_hook<bi::optimize_size<true>> R1;
typedef bi::avl_set_member_hook<bi::link_mode<bi::auto_unlink>> A1;
typedef bi::bs_set_member_hook<bi::link_mode<bi::auto_unlink>> B1;
typedef bi::unordered_set_member_hook<bi::store_hash<true>> H1;
typedef bi::unordered_set_member_hook<bi::optimize_multikey<true>, bi::link_mode<bi::auto_unlink>> H2;
struct Poly { virtual ~Poly() {} virtual int f() const { return 1; } };
struct E0 : public Poly, public Data {
  char c0; L1 la; char c1; L1 lb; L2 lc; char c2[3]; S1 sa; S1 sb; R1 ra; R1 rb; char c3; A1 aa; B1 ba; B1 bb; char c4[5]; H1 ha; H1 hb; H2 hc; char c5;
  int f() const override { return 2; }
  SIM_CMPOPS(E0)
};
#define MEM(T, M) bi::member_hook<E0, T, &E0::M>
#define GET(T, M) AsMember<E0, T, &E0::M>
struct Cfg {
  typedef E0 E;
  static const bool reloc = false;
  static void setup(MultiWorld<E> &w) {
    w.add<SeqBox<E, E, bi::list<E, MEM(L1, la)>, GET(L1, la)>>(0);
    w.add<SeqBox<E, E, bi::list<E, MEM(L1, lb), NCT>, GET(L1, lb)>>(1);
    w.add<SeqBox<E, E, bi::list<E, MEM(L2, lc), NCT>, GET(L2, lc)>>(2);
    w.add<SeqBox<E, E, bi::slist<E, MEM(S1, sa), bi::cache_last<true>, NCT>, GET(S1, sa)>>(3);
    w.add<SeqBox<E, E, bi::slist<E, MEM(S1, sb)>, GET(S1, sb)>>(4);
    w.add<TreeBox<E, E, bi::multiset<E, MEM(R1, ra), KC>, GET(R1, ra), false>>(5);
    w.add<TreeBox<E, E, bi::set<E, MEM(R1, rb), KC, NCT>, GET(R1, rb), true>>(6);
    w.add<TreeBox<E, E, bi::avl_multiset<E, MEM(A1, aa), KC, NCT>, GET(A1, aa), false>>(7);
    w.add<TreeBox<E, E, bi::splay_set<E, MEM(B1, ba), KC, NCT>, GET(B1, ba), true>>(8, 2);
    w.add<TreeBox<E, E, bi::bs_multiset<E, MEM(B1, ba), KC, NCT>, GET(B1, ba), false>>(8, 1);
    w.add<TreeBox<E, E, bi::splay_multiset<E, MEM(B1, bb), KC, NCT>, GET(B1, bb), false>>(9, 2);
    w.add<TreeBox<E, E, bi::bs_set<E, MEM(B1, bb), KC, NCT>, GET(B1, bb), true>>(9, 1);
    w.add<HashBox<E, E, bi::unordered_set<E, MEM(H1, ha), bi::hash<MHash>, bi::equal<MEq>, bi::cache_begin<true>>, GET(H1, ha), true>>(10);
    w.add<HashBox<E, E, bi::unordered_multiset<E, MEM(H1, hb), bi::hash<MHash>, bi::equal<MEq>, bi::compare_hash<true>>, GET(H1, hb), false>>(11);
    w.add<HashBox<E, E, bi::unordered_multiset<E, MEM(H2, hc), bi::hash<MHash>, bi::equal<MEq>, NCT>, GET(H2, hc), false>>(12);
  }
};
}
SIM_MULTI_CONFIG(Cfg, "multi_member")

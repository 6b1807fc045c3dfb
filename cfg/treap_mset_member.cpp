#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef MemberE<bi::bs_set_member_hook<bi::link_mode<bi::normal_link>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_SETCFG(treap_mset_member, K_TREAP, false, E0, treap_multiset, treap_set, MH, bi::priority<PrioCmp>, bi::priority_of_value<PrioOf>, bi::constant_time_size<false>)

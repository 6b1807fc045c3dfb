#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_SETCFG(treap_mset_reloc, K_TREAP, false, E0, treap_multiset, treap_set, bi::priority<PrioCmp>, bi::key_of_value<KeyOf>, bi::priority_of_value<PrioOf>, bi::constant_time_size<true>)

#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(treap_set_base, K_TREAP, true, E0, treap_set, treap_multiset, bi::priority<PrioCmp>, bi::constant_time_size<true>)

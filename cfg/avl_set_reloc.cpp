#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::avl_set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_SETCFG(avl_set_reloc, K_AVL, true, E0, avl_set, avl_multiset, bi::constant_time_size<true>)

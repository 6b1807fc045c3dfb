#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::avl_set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(avl_mset_base, K_AVL, false, E0, avl_multiset, avl_set, bi::constant_time_size<false>)

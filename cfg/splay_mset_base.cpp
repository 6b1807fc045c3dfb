#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(splay_mset_base, K_SPLAY, false, E0, splay_multiset, splay_set, bi::constant_time_size<true>)

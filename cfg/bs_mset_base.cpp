#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(bs_mset_base, K_BS, false, E0, bs_multiset, bs_set, bi::constant_time_size<true>)

#define SIM_ALTCMP Cmp
#define SIM_RELOC false
#define SIM_ANY true
#include "tree_common.hpp"
typedef BaseE<bi::any_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(bs_mset_any, K_BS, false, E0, bs_multiset, bs_set, bi::any_to_bs_set_hook<bi::base_hook<E0::hook_t>>, bi::constant_time_size<false>)

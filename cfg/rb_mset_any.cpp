#define SIM_ALTCMP Cmp
#define SIM_RELOC false
#define SIM_ANY true
#include "tree_common.hpp"
typedef BaseE<bi::any_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(rb_mset_any, K_RB, false, E0, multiset, set, bi::any_to_set_hook<bi::base_hook<E0::hook_t>>, bi::constant_time_size<true>)

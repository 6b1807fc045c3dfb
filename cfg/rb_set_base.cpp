#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(rb_set_base, K_RB, true, E0, set, multiset, bi::constant_time_size<true>)

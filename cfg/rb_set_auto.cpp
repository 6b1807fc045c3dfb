#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
struct tagX; typedef BaseE<bi::set_base_hook<bi::link_mode<bi::auto_unlink>, bi::tag<tagX>>> E0;
SIM_SETCFG(rb_set_auto, K_RB, true, E0, set, multiset, bi::base_hook<E0::hook_t>, bi::constant_time_size<false>)

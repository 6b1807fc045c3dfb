#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_SETCFG(rb_mset_reloc, K_RB, false, E0, multiset, set, bi::key_of_value<KeyOf>, bi::constant_time_size<true>)

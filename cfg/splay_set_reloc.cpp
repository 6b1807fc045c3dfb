#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::normal_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_SETCFG(splay_set_reloc, K_SPLAY, true, E0, splay_set, splay_multiset, bi::key_of_value<KeyOf>, bi::constant_time_size<true>)

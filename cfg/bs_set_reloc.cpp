#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_RAWCFG(bs_set_reloc, K_BS, true, E0, bstree, bi::constant_time_size<true>)

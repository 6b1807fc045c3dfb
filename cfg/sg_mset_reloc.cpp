#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_SETCFG(sg_mset_reloc, K_SG, false, E0, sg_multiset, sg_set, bi::floating_point<true>, bi::key_of_value<KeyOf>)

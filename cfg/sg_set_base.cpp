#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(sg_set_base, K_SG, true, E0, sg_set, sg_multiset, bi::floating_point<true>)

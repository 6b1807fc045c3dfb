#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::auto_unlink>>> E0;
SIM_SETCFG(bs_set_auto, K_BS, true, E0, bs_set, bs_multiset, bi::constant_time_size<false>)

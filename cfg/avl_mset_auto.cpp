#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::avl_set_base_hook<bi::link_mode<bi::auto_unlink>>> E0;
SIM_RAWCFG(avl_mset_auto, K_AVL, false, E0, avltree, bi::constant_time_size<false>)

#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::avl_set_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_SETCFG(avl_set_holder, K_AVL, true, E0, avl_set, avl_multiset, bi::header_holder_type<SideHeader<bi::avltree_node_traits<void *>::node_ptr>>)

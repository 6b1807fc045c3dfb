#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef BaseE<bi::set_base_hook<bi::link_mode<bi::normal_link>>> E0;
SIM_SETCFG(rb_mset_holder, K_RB, false, E0, multiset, set, bi::header_holder_type<SideHeader<bi::rbtree_node_traits<void *>::node_ptr>>, bi::constant_time_size<true>)

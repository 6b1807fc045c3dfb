#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef MemberE<bi::avl_set_member_hook<bi::link_mode<bi::normal_link>, bi::optimize_size<true>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_SETCFG(avl_set_member, K_AVL, true, E0, avl_set, avl_multiset, MH, bi::constant_time_size<true>, bi::key_of_value<KeyOf>)

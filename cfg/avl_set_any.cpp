#define SIM_ALTCMP Cmp
#define SIM_RELOC false
#define SIM_ANY true
#include "tree_common.hpp"
typedef MemberE<bi::any_member_hook<bi::link_mode<bi::normal_link>>> E0;
typedef bi::any_to_avl_set_hook<bi::member_hook<E0, E0::hook_t, &E0::h>> AH;
SIM_SETCFG(avl_set_any, K_AVL, true, E0, avl_set, avl_multiset, AH, bi::constant_time_size<true>)

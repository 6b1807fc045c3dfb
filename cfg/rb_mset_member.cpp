#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef MemberE<bi::set_member_hook<bi::link_mode<bi::normal_link>, bi::optimize_size<true>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_SETCFG(rb_mset_member, K_RB, false, E0, multiset, set, MH, bi::constant_time_size<true>)

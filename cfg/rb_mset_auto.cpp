#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef MemberE<bi::set_member_hook<bi::link_mode<bi::auto_unlink>, bi::optimize_size<false>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_RAWCFG(rb_mset_auto, K_RB, false, E0, rbtree, MH, bi::constant_time_size<false>)

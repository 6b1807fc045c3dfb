#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef MemberE<bi::bs_set_member_hook<bi::link_mode<bi::auto_unlink>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_SETCFG(splay_set_auto, K_SPLAY, true, E0, splay_set, splay_multiset, MH, bi::constant_time_size<false>)

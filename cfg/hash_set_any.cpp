#include "hash_common.hpp"
typedef MemberE<bi::any_member_hook<bi::link_mode<bi::safe_link> > > E0;
typedef bi::any_to_unordered_set_hook<bi::member_hook<E0, E0::hook_t, &E0::h> > AH;
SIM_HASHCFG(hash_set_any, true, false, true, E0, AH, bi::constant_time_size<true>)

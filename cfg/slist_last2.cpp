#include "list_common.hpp"
typedef MemberE<bi::slist_member_hook<bi::link_mode<bi::normal_link>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_LISTCFG(slist_last2, true, false, false, E0, bi::slist<E0, MH, bi::constant_time_size<false>, bi::cache_last<true>>)

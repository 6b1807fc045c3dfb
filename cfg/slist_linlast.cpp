#include "list_common.hpp"
typedef MemberE<bi::slist_member_hook<bi::link_mode<bi::safe_link>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_LISTCFG(slist_linlast, true, false, false, E0, bi::slist<E0, MH, bi::constant_time_size<true>, bi::linear<true>, bi::cache_last<true>>)

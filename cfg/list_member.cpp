#include "list_common.hpp"
typedef MemberE<bi::list_member_hook<bi::link_mode<bi::normal_link>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_LISTCFG(list_member, false, false, false, E0, bi::list<E0, MH, bi::constant_time_size<true>, bi::size_type<unsigned short>>)

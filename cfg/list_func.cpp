#include "list_common.hpp"
typedef MemberE<bi::list_member_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
typedef bi::member_hook<E0, E0::hook_t, &E0::h> MH;
SIM_LISTCFG(list_reloc2, false, true, false, E0, bi::list<E0, MH, bi::constant_time_size<true>>)
typedef MemberE<bi::list_member_hook<bi::link_mode<bi::safe_link>>> E1;
typedef FuncHook<E1::hook_t> FH;
SIM_LISTCFG(list_func, false, false, false, E1, bi::list<E1, bi::function_hook<FH>, bi::constant_time_size<false>>)

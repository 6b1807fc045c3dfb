#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
typedef MemberE<bi::set_member_hook<bi::link_mode<bi::safe_link>>> E0;
typedef FuncHook<E0::hook_t> FH;
SIM_SETCFG(rb_set_func, K_RB, true, E0, set, multiset, bi::function_hook<FH>, bi::constant_time_size<false>, bi::size_type<unsigned short>, bi::key_of_value<KeyOf>)

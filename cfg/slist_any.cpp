#include "list_common.hpp"
typedef BaseE<bi::any_base_hook<bi::link_mode<bi::safe_link>>> E0;
typedef bi::any_to_slist_hook<bi::base_hook<E0::hook_t>> AH;
SIM_LISTCFG(slist_any, true, false, true, E0, bi::slist<E0, AH, bi::constant_time_size<true>, bi::cache_last<true>>)

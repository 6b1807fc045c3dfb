#include "list_common.hpp"
typedef BaseE<bi::slist_base_hook<bi::link_mode<bi::normal_link>>> E0;
SIM_LISTCFG(slist_linlast2, true, false, false, E0, bi::slist<E0, bi::constant_time_size<false>, bi::linear<true>, bi::cache_last<true>>)

#include "list_common.hpp"
typedef BaseE<bi::slist_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_LISTCFG(slist_lin, true, false, false, E0, bi::slist<E0, bi::constant_time_size<true>, bi::linear<true>>)

#include "list_common.hpp"
typedef BaseE<bi::slist_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_LISTCFG(slist_reloc, true, true, false, E0, bi::slist<E0, bi::constant_time_size<true>, bi::cache_last<true>>)

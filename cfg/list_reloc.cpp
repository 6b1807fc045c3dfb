#include "list_common.hpp"
typedef BaseE<bi::list_base_hook<bi::link_mode<bi::auto_unlink>, bi::void_pointer<sim_ptr<void>>>> E0;
SIM_LISTCFG(list_reloc, false, true, false, E0, bi::list<E0, bi::constant_time_size<false>>)

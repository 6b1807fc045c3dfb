#include "list_common.hpp"
typedef BaseE<bi::list_base_hook<bi::link_mode<bi::auto_unlink>>> E0;
SIM_LISTCFG(list_auto, false, false, false, E0, bi::list<E0, bi::constant_time_size<false>>)

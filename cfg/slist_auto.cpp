#include "list_common.hpp"
typedef BaseE<bi::slist_base_hook<bi::link_mode<bi::auto_unlink>>> E0;
SIM_LISTCFG(slist_auto, true, false, false, E0, bi::slist<E0, bi::constant_time_size<false>>)

#include "list_common.hpp"
typedef BaseE<bi::list_base_hook<bi::link_mode<bi::safe_link>>> E0;
SIM_LISTCFG(list_holder, false, false, false, E0, bi::list<E0, bi::constant_time_size<true>, bi::header_holder_type<SideHeader<bi::list_node_traits<void *>::node_ptr>>>)

#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void> >, bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_set_reloc, true, true, false, E0, bi::constant_time_size<true>, bi::cache_begin<true>)

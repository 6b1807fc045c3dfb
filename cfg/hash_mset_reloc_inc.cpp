#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void> >> > E0;
SIM_HASHCFG(hash_mset_reloc_inc, false, true, false, E0, bi::constant_time_size<true>, bi::incremental<true>, bi::power_2_buckets<true>, bi::cache_begin<true>)

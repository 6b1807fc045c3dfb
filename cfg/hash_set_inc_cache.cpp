#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>, bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_set_inc_cache, true, false, false, E0, bi::constant_time_size<true>, bi::incremental<true>, bi::power_2_buckets<true>, bi::cache_begin<true>)

#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::optimize_multikey<true>, bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_mset_optm_store, false, false, false, E0, bi::constant_time_size<true>, bi::cache_begin<true>, bi::power_2_buckets<true>)

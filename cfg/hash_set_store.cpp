#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_set_store, true, false, false, E0, bi::constant_time_size<true>, bi::compare_hash<true>, bi::cache_begin<true>)

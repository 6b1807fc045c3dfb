#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_set_fmod, true, false, false, E0, bi::constant_time_size<true>, bi::fastmod_buckets<true>, bi::compare_hash<true>, bi::key_of_value<KeyOf>)

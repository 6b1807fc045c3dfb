#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>> > E0;
SIM_HASHCFG(hash_set_lin, true, false, false, E0, bi::constant_time_size<true>, bi::linear_buckets<true>, bi::cache_begin<true>)

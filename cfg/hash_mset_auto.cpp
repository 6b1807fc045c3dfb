#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::auto_unlink>> > E0;
SIM_HASHCFG(hash_mset_auto, false, false, false, E0, bi::constant_time_size<false>, bi::power_2_buckets<true>)

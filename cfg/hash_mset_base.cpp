#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>> > E0;
SIM_HASHCFG(hash_mset_base, false, false, false, E0, bi::constant_time_size<false>)

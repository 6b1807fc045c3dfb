#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::optimize_multikey<true>> > E0;
SIM_HASHCFG(hash_mset_optm, false, false, false, E0, bi::constant_time_size<true>)

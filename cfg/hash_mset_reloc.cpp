#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::auto_unlink>, bi::void_pointer<sim_ptr<void> >, bi::optimize_multikey<true>> > E0;
SIM_HASHCFG(hash_mset_reloc, false, true, false, E0, bi::constant_time_size<false>, bi::power_2_buckets<true>)

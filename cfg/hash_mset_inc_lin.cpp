#include "hash_common.hpp"
typedef MemberE<bi::unordered_set_member_hook<bi::link_mode<bi::normal_link>, bi::optimize_multikey<true>, bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_mset_inc_lin, false, false, false, E0, bi::member_hook<E0, E0::hook_t, &E0::h>, bi::constant_time_size<true>, bi::incremental<true>, bi::power_2_buckets<true>, bi::linear_buckets<true>)

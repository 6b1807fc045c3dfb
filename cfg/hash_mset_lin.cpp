#include "hash_common.hpp"
typedef MemberE<bi::unordered_set_member_hook<bi::link_mode<bi::normal_link>, bi::store_hash<true>> > E0;
SIM_HASHCFG(hash_mset_lin, false, false, false, E0, bi::member_hook<E0, E0::hook_t, &E0::h>, bi::constant_time_size<false>, bi::linear_buckets<true>, bi::compare_hash<true>)

#include "hash_common.hpp"
typedef MemberE<bi::unordered_set_member_hook<bi::link_mode<bi::normal_link>> > E0;
SIM_HASHCFG(hash_set_pow2, true, false, false, E0, bi::member_hook<E0, E0::hook_t, &E0::h>, bi::constant_time_size<false>, bi::power_2_buckets<true>, bi::key_of_value<KeyOf>)

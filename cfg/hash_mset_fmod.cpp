#include "hash_common.hpp"
typedef MemberE<bi::unordered_set_member_hook<bi::link_mode<bi::safe_link>, bi::optimize_multikey<true>> > E0;
SIM_RAWHASHCFG(hash_mset_fmod, false, false, false, E0, bi::member_hook<E0, E0::hook_t, &E0::h>, bi::constant_time_size<false>, bi::fastmod_buckets<true>, bi::cache_begin<true>)

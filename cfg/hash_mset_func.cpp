#include "hash_common.hpp"
typedef MemberE<bi::unordered_set_member_hook<bi::optimize_multikey<true> > > E0;
SIM_HASHCFG(hash_mset_func, false, false, false, E0, bi::function_hook<FuncHook<E0::hook_t> >, bi::constant_time_size<true>, bi::bucket_traits<UserBucketTraits<bi::unordered_bucket_ptr<bi::function_hook<FuncHook<E0::hook_t> > >::type> >)

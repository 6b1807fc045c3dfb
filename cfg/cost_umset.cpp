#include "cost_hash_common.hpp"
CFG(cost_umset_optm, false, true, EUO, bi::unordered_multiset<EUO, bi::hash<HashT>, bi::equal<EqT>, bi::compare_hash<true>, bi::cache_begin<true>>)
CFG(cost_umset_optm_inc, false, false, EUON, bi::unordered_multiset<EUON, bi::hash<HashT>, bi::equal<EqT>, bi::incremental<true>, bi::power_2_buckets<true>>)
CFG(cost_umset, false, false, EUN, bi::unordered_multiset<EUN, bi::hash<HashT>, bi::equal<EqT>, bi::constant_time_size<false>>)
CFG(cost_umset_cmph, false, true, EUS, bi::unordered_multiset<EUS, bi::hash<HashT>, bi::equal<EqT>, bi::compare_hash<true>, bi::cache_begin<true>>)

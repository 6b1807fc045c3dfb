#include "cost_hash_common.hpp"
CFG(cost_uset_base, true, true, EU, bi::unordered_set<EU, bi::hash<HashT>, bi::equal<EqT>, bi::key_of_value<KeyOf>, bi::power_2_buckets<true>, bi::constant_time_size<true>>)
CFG(cost_uset_inc, true, true, EUS, bi::unordered_set<EUS, bi::hash<HashT>, bi::equal<EqT>, bi::incremental<true>, bi::power_2_buckets<true>, bi::cache_begin<true>>)
CFG(cost_uset_lin, true, true, EUS, bi::unordered_set<EUS, bi::hash<HashT>, bi::equal<EqT>, bi::linear_buckets<true>, bi::fastmod_buckets<true>, bi::compare_hash<true>>)

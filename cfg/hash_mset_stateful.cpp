#include "hash_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_HASHCFG(hash_mset_stateful, false, false, false, E0, bi::value_traits<IndexVT<E0, bi::unordered_node_traits<void *, true, true> > >, bi::constant_time_size<true>)

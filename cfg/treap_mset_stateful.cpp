#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_RAWCFG(treap_mset_stateful, K_TREAP, false, E0, treap, bi::priority<PrioCmp>, bi::value_traits<IndexVT<E0, bi::tree_node_traits<void *>>>, bi::constant_time_size<true>, bi::key_of_value<KeyOf>)

#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_SETCFG(avl_mset_stateful, K_AVL, false, E0, avl_multiset, avl_set, bi::value_traits<IndexVT<E0, bi::avltree_node_traits<void *, true>>>, bi::constant_time_size<false>)

#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_SETCFG(rb_set_stateful, K_RB, true, E0, set, multiset, bi::value_traits<IndexVT<E0, bi::rbtree_node_traits<void *, false>>>, bi::constant_time_size<true>)

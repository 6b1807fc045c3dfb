#define SIM_RELOC false
#define SIM_ANY false
#include "tree_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_SETCFG(sg_mset_stateful, K_SG, false, E0, sg_multiset, sg_set, bi::value_traits<IndexVT<E0, bi::tree_node_traits<void *>>>, bi::floating_point<true>)

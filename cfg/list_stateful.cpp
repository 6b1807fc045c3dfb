#include "list_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_LISTCFG(list_stateful, false, false, false, E0, bi::list<E0, bi::value_traits<IndexVT<E0, bi::list_node_traits<void *>>>, bi::constant_time_size<true>>)

#include "list_common.hpp"
struct E0 : Data { friend bool operator<(const E0 &a, const E0 &b) { return a.key < b.key; } friend bool operator==(const E0 &a, const E0 &b) { return a.key == b.key; } };
SIM_LISTCFG(slist_stateful, true, false, false, E0, bi::slist<E0, bi::value_traits<IndexVT<E0, bi::slist_node_traits<void *>>>, bi::constant_time_size<true>, bi::cache_last<true>>)

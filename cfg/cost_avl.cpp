#include "cost_tree_common.hpp"
CFG(cost_avl_set, CK_AVL, true, true, EA, bi::avl_set<EA, bi::compare<Cmp>, bi::constant_time_size<false>>)
CFG(cost_avl_mset, CK_AVL, false, true, EA, bi::avl_multiset<EA, bi::compare<Cmp>, bi::key_of_value<KeyOf>>)

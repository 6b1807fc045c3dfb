#include "cost_tree_common.hpp"
CFG(cost_rb_set, CK_RB, true, true, ER, bi::set<ER, bi::compare<Cmp>, bi::key_of_value<KeyOf>, bi::constant_time_size<true>>)
CFG(cost_rb_mset, CK_RB, false, false, ERN, bi::multiset<ERN, bi::compare<Cmp>, bi::constant_time_size<false>>)

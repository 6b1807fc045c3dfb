#include "cost_tree_common.hpp"
CFG(cost_treap_set, CK_TREAP, true, true, EB, bi::treap_set<EB, bi::compare<Cmp>, bi::priority<PrioCmp>>)
CFG(cost_treap_mset, CK_TREAP, false, false, EBN, bi::treap_multiset<EBN, bi::compare<Cmp>, bi::priority<PrioCmp>, bi::constant_time_size<false>>)

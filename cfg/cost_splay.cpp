#include "cost_tree_common.hpp"
CFG(cost_splay_set, CK_SPLAY, true, true, EB, bi::splay_set<EB, bi::compare<Cmp>>)
CFG(cost_splay_mset, CK_SPLAY, false, false, EBN, bi::splay_multiset<EBN, bi::compare<Cmp>, bi::constant_time_size<false>>)

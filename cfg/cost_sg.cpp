#include "cost_tree_common.hpp"
CFG(cost_sg_set, CK_SG, true, true, EB, bi::sg_set<EB, bi::compare<Cmp>>)
CFG(cost_sg_mset, CK_SG, false, false, EBN, bi::sg_multiset<EBN, bi::compare<Cmp>, bi::floating_point<false>>)
CFG(cost_bs_mset, CK_BS, false, true, EB, bi::bs_multiset<EB, bi::compare<Cmp>>)

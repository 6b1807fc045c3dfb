#define SIM_RELOC true
#define SIM_ANY false
#include "tree_common.hpp"
typedef bi::rbtree_node_traits<sim_ptr<void>, false> NT0;
typedef DerivE<NT0::node, bi::rbtree_algorithms<NT0> > E0;
typedef bi::derivation_value_traits<E0, NT0, bi::safe_link> VT0;
SIM_SETCFG(rb_mset_deriv_reloc, K_RB, false, E0, multiset, set, bi::value_traits<VT0>, bi::constant_time_size<true>)

// tree algorithms over a node type with self-relative pointers
#include "../sim/algo_engine.hpp"
SIM_ALGO_CONFIG(AK_BS, RelLayout, algo_bs_rel)
SIM_ALGO_CONFIG(AK_RB, RelLayout, algo_rb_rel)
SIM_ALGO_CONFIG(AK_AVL, RelLayout, algo_avl_rel)
SIM_ALGO_CONFIG(AK_SPLAY, RelLayout, algo_splay_rel)
SIM_ALGO_CONFIG(AK_SG, RelLayout, algo_sg_rel)
SIM_ALGO_CONFIG(AK_TREAP, RelLayout, algo_treap_rel)

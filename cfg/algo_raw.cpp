// tree algorithms over a node type with plain pointers and user-chosen colour/balance values
#include "../sim/algo_engine.hpp"
SIM_ALGO_CONFIG(AK_BS, RawLayout, algo_bs_raw)
SIM_ALGO_CONFIG(AK_RB, RawLayout, algo_rb_raw)
SIM_ALGO_CONFIG(AK_AVL, RawLayout, algo_avl_raw)
SIM_ALGO_CONFIG(AK_SPLAY, RawLayout, algo_splay_raw)
SIM_ALGO_CONFIG(AK_SG, RawLayout, algo_sg_raw)
SIM_ALGO_CONFIG(AK_TREAP, RawLayout, algo_treap_raw)

// tree algorithms over a node type with 32-bit offsets and packed balance bits
#include "../sim/algo_engine.hpp"
SIM_ALGO_CONFIG(AK_BS, EncLayout, algo_bs_enc)
SIM_ALGO_CONFIG(AK_RB, EncLayout, algo_rb_enc)
SIM_ALGO_CONFIG(AK_AVL, EncLayout, algo_avl_enc)
SIM_ALGO_CONFIG(AK_SPLAY, EncLayout, algo_splay_enc)
SIM_ALGO_CONFIG(AK_SG, EncLayout, algo_sg_enc)
SIM_ALGO_CONFIG(AK_TREAP, EncLayout, algo_treap_enc)

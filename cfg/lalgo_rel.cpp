// list algorithms over a user-supplied node layout
#include "../sim/lalgo_engine.hpp"
SIM_LALGO_CONFIG(LK_CL, LRel, lalgo_list_rel)
SIM_LALGO_CONFIG(LK_CS, LRel, lalgo_cslist_rel)
SIM_LALGO_CONFIG(LK_LS, LRel, lalgo_lslist_rel)

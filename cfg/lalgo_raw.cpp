// list algorithms over a user-supplied node layout
#include "../sim/lalgo_engine.hpp"
SIM_LALGO_CONFIG(LK_CL, LRaw, lalgo_list_raw)
SIM_LALGO_CONFIG(LK_CS, LRaw, lalgo_cslist_raw)
SIM_LALGO_CONFIG(LK_LS, LRaw, lalgo_lslist_raw)

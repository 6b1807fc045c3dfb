// list algorithms over a user-supplied node layout
#include "../sim/lalgo_engine.hpp"
SIM_LALGO_CONFIG(LK_CL, LEnc, lalgo_list_enc)
SIM_LALGO_CONFIG(LK_CS, LEnc, lalgo_cslist_enc)
SIM_LALGO_CONFIG(LK_LS, LEnc, lalgo_lslist_enc)

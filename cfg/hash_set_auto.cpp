#include "hash_common.hpp"
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::auto_unlink>, bi::optimize_multikey<true>, bi::store_hash<true>> > E0;
SIM_RAWHASHCFG(hash_set_auto, true, false, false, E0, bi::constant_time_size<false>)

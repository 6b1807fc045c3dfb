#pragma once
#include "../sim/cost_hash.hpp"
using namespace sim;
#define CFG(NAME, UNIQ_, SAFE_, ELEM_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const bool unique = UNIQ_, safe = SAFE_; typedef __VA_ARGS__ C; static const char *name() { return #NAME; } }; } \
  static Registrar reg_##NAME(CostHash<NAME>::entry(#NAME));
typedef bi::void_pointer<sim_ptr<void>> VP;
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>, VP>> EU;
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::normal_link>, VP>> EUN;
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>, bi::store_hash<true>, VP>> EUS;
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::safe_link>, bi::store_hash<true>, bi::optimize_multikey<true>, VP>> EUO;
typedef BaseE<bi::unordered_set_base_hook<bi::link_mode<bi::normal_link>, bi::optimize_multikey<true>, VP>> EUON;

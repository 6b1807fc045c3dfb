#pragma once
#include "../sim/cost_tree.hpp"
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
namespace bi = boost::intrusive;
using namespace sim;
#define CFG(NAME, KIND_, UNIQ_, SAFE_, ELEM_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const int kind = KIND_; static const bool unique = UNIQ_, safe = SAFE_; typedef __VA_ARGS__ C; static const char *name() { return #NAME; } }; } \
  static Registrar reg_##NAME(CostTree<NAME>::entry(#NAME));
typedef bi::void_pointer<sim_ptr<void>> VP;
typedef BaseE<bi::set_base_hook<bi::link_mode<bi::safe_link>, VP>> ER;
typedef BaseE<bi::set_base_hook<bi::link_mode<bi::normal_link>, bi::optimize_size<true>, VP>> ERN;
typedef BaseE<bi::avl_set_base_hook<bi::link_mode<bi::safe_link>, VP>> EA;
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::safe_link>, VP>> EB;
typedef BaseE<bi::bs_set_base_hook<bi::link_mode<bi::normal_link>, VP>> EBN;

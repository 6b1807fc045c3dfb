#include "../sim/cost_list.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
namespace bi = boost::intrusive;
using namespace sim;
#define CFG(NAME, SL_, LAST_, SAFE_, ELEM_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const bool slist = SL_, last = LAST_, safe = SAFE_; typedef __VA_ARGS__ C; static const char *name() { return #NAME; } }; } \
  static Registrar reg_##NAME(CostList<NAME>::entry(#NAME));
typedef BaseE<bi::list_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> EL;
typedef BaseE<bi::list_base_hook<bi::link_mode<bi::normal_link>, bi::void_pointer<sim_ptr<void>>>> ELN;
typedef BaseE<bi::slist_base_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<sim_ptr<void>>>> ES;
typedef BaseE<bi::slist_base_hook<bi::link_mode<bi::normal_link>, bi::void_pointer<sim_ptr<void>>>> ESN;
CFG(cost_list_cts, false, false, true, EL, bi::list<EL, bi::constant_time_size<true>>)
CFG(cost_list_nocts, false, false, false, ELN, bi::list<ELN, bi::constant_time_size<false>>)
CFG(cost_slist_last, true, true, true, ES, bi::slist<ES, bi::constant_time_size<true>, bi::cache_last<true>>)
CFG(cost_slist_linlast, true, true, false, ESN, bi::slist<ESN, bi::constant_time_size<false>, bi::cache_last<true>, bi::linear<true>>)
CFG(cost_slist_lin, true, false, true, ES, bi::slist<ES, bi::constant_time_size<true>, bi::linear<true>>)

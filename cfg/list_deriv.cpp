#include "list_common.hpp"
#include <boost/intrusive/derivation_value_traits.hpp>
// elements that derive from the bare node
typedef bi::list_node_traits<sim_ptr<void> > LNT;
typedef DerivE<LNT::node, bi::circular_list_algorithms<LNT> > E0;
SIM_LISTCFG(list_deriv_reloc, false, true, false, E0, bi::list<E0, bi::value_traits<bi::derivation_value_traits<E0, LNT, bi::safe_link> >, bi::constant_time_size<true>>)
typedef bi::slist_node_traits<void *> SNT;
typedef DerivE<SNT::node, bi::circular_slist_algorithms<SNT> > E1;
SIM_LISTCFG(slist_deriv, true, false, false, E1, bi::slist<E1, bi::value_traits<bi::derivation_value_traits<E1, SNT, bi::normal_link> >, bi::cache_last<true>, bi::constant_time_size<false>>)

#include "hash_common.hpp"
#include <boost/intrusive/derivation_value_traits.hpp>
typedef bi::unordered_node_traits<sim_ptr<void>, false, false> NT0;
struct Init0 { typedef NT0::node_ptr node_ptr; static void init(node_ptr n) { NT0::set_next(n, node_ptr()); } };
typedef DerivE<NT0::node, Init0> E0;
typedef bi::derivation_value_traits<E0, NT0, bi::safe_link> VT0;
SIM_HASHCFG(hash_mset_deriv_reloc, false, true, false, E0, bi::value_traits<VT0>, bi::constant_time_size<false>)

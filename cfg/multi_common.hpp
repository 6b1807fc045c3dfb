#pragma once
#include "../sim/multi_engine.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
namespace bi = boost::intrusive;
using namespace sim;
template <class E, class Hook> struct AsBase { static Hook &get(E &e) { return static_cast<Hook &>(e); } };
template <class E, class Hook, Hook E::*M> struct AsMember { static Hook &get(E &e) { return e.*M; } };
typedef bi::compare<Cmp> KC;
typedef bi::priority<PrioCmp> PC;
typedef bi::constant_time_size<false> NCT;
#define SIM_CMPOPS(E) friend bool operator<(const E &a, const E &b) { return a.key < b.key; } friend bool operator==(const E &a, const E &b) { return a.key == b.key; }

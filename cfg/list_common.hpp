#pragma once
#include "../sim/list_engine.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/any_hook.hpp>
namespace bi = boost::intrusive;
using namespace sim;
#define SIM_LISTCFG(NAME, SLIST_, RELOC_, ANY_, ELEM_, ...) \
  namespace { struct NAME { typedef ELEM_ E; static const bool slist = SLIST_, reloc = RELOC_, any = ANY_; typedef __VA_ARGS__ C; }; } \
  SIM_LIST_CONFIG(NAME, #NAME)

// Force-included before everything: routes the library's assertions into the
// simulator (the library documents these macros as redefinable).
#pragma once
namespace sim { void on_assert(const char *kind, const char *expr, const char *file, long line); }
#define SIM_ASSERT_(kind, x) ((x) ? (void)0 : ::sim::on_assert(kind, #x, __FILE__, __LINE__))
#define BOOST_INTRUSIVE_INVARIANT_ASSERT(...) SIM_ASSERT_("invariant", (__VA_ARGS__))
#define BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(...) SIM_ASSERT_("safe-hook", (__VA_ARGS__))
#define BOOST_INTRUSIVE_SAFE_HOOK_DESTRUCTOR_ASSERT(...) SIM_ASSERT_("safe-hook-dtor", (__VA_ARGS__))
#define BOOST_ENABLE_ASSERT_HANDLER 1
#include <boost/assert.hpp>

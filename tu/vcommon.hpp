// Common definitions for verification translation units.
// All library assertion macros are routed to an external function that the
// verifier must prove unreachable.
#ifndef V_COMMON_HPP
#define V_COMMON_HPP
extern "C" [[noreturn]] void v_assert_fail() noexcept;
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/config.hpp>
namespace boost {
inline void assertion_failed(char const*, char const*, char const*, long) { v_assert_fail(); }
inline void assertion_failed_msg(char const*, char const*, char const*, char const*, long) { v_assert_fail(); }
}
#define BOOST_INTRUSIVE_INVARIANT_ASSERT(c) ((c) ? (void)0 : v_assert_fail())
#include <cstddef>
#include <utility>
struct Node;
typedef Node* NP;
typedef const Node* CNP;
#endif

// C13/C10: the real integer helpers, bucket-index functions and bucket-count tables
#include "vcommon.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/sg_set.hpp>
namespace bi = boost::intrusive; namespace bd = boost::intrusive::detail;
typedef std::size_t sz;
extern "C" {
sz v_floor_log2(sz x) { return bd::floor_log2(x); }
sz v_ceil_log2(sz x) { return bd::ceil_log2(x); }
sz v_ceil_pow2(sz x) { return bd::ceil_pow2(x); }
sz v_prev_pow2(sz x) { return bd::previous_or_equal_pow2(x); }
bool v_is_pow2(sz x) { return bd::is_pow2(x); }
sz v_sqrt2(sz x) { return bd::sqrt2_pow_2xplus1(x); }
sz v_calc_h(sz n) { return bd::calculate_h_sqrt2(n); }
sz v_alpha075(sz n) { return bd::alpha_0_75_by_max_size_t()(n); }
sz v_bucket_mod(sz h, sz bc) { return bi::hash_to_bucket(h, bc, bd::false_()); }
sz v_bucket_pow2(sz h, sz bc) { return bi::hash_to_bucket(h, bc, bd::true_()); }
sz v_split_ff(sz h, sz bc, sz s) { return bi::hash_to_bucket_split<false, false>(h, bc, s, bd::false_()); }
sz v_split_tf(sz h, sz bc, sz s) { return bi::hash_to_bucket_split<true, false>(h, bc, s, bd::false_()); }
sz v_split_tt(sz h, sz bc, sz s) { return bi::hash_to_bucket_split<true, true>(h, bc, s, bd::false_()); }
sz v_split_fast(sz h, sz bc, sz s) { return bi::hash_to_bucket_split<false, false>(h, bc, s, bd::true_()); }
sz v_size(sz i) { return bi::prime_fmod_size::size(i); }
sz v_lower(sz n) { return bi::prime_list_holder<>::suggested_lower_bucket_count(n); }
sz v_upper(sz n) { return bi::prime_list_holder<>::suggested_upper_bucket_count(n); }
sz v_lower_idx(sz n) { return bi::prime_fmod_size::lower_size_index(n); }
sz v_upper_idx(sz n) { return bi::prime_fmod_size::upper_size_index(n); }
unsigned short v_lower16(unsigned short n) { return bi::prime_list_holder<>::suggested_lower_bucket_count(n); }
unsigned short v_upper16(unsigned short n) { return bi::prime_list_holder<>::suggested_upper_bucket_count(n); }
unsigned v_lower32(unsigned n) { return bi::prime_list_holder<>::suggested_lower_bucket_count(n); }
unsigned v_upper32(unsigned n) { return bi::prime_list_holder<>::suggested_upper_bucket_count(n); }
}

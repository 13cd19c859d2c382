// Integer helpers and bucket arithmetic against independently computed definitions. C13
#include "vh.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/detail/math.hpp>
namespace bi = boost::intrusive; namespace bd = boost::intrusive::detail;
typedef unsigned __int128 u128; typedef std::size_t sz;
static int flog(sz x) { int r = -1; while (x) { x >>= 1; ++r; } return r; }
static bool prime(uint64_t n) { auto pw = [&](uint64_t a, uint64_t e) { u128 r = 1, b = a; while (e) { if (e & 1) r = r * b % n; b = b * b % n; e >>= 1; } return (uint64_t)r; };
  if (n < 2) return false; for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n == p) return true; if (n % p == 0) return false; }
  uint64_t d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, ++s;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { u128 x = pw(a, d); if (x == 1 || x == n - 1) continue; bool c = true; for (int i = 1; i < s && c; ++i) { x = x * x % n; if (x == n - 1) c = false; } if (c) return false; }
  return true; }
static std::vector<sz> interesting(vh::Rng& r, int extra) { std::vector<sz> v; for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) v.push_back(((sz)1 << b) + d); for (sz i = 0; i < 300; ++i) v.push_back(i), v.push_back(~i); for (int i = 0; i < extra; ++i) v.push_back(r.next() >> r.below(64)); return v; }
struct H { sz operator()(int) const { return 0; } };
typedef bi::unordered_set_base_hook<> Hook; struct E : Hook { friend bool operator==(const E&, const E&) { return true; } friend sz hash_value(const E&) { return 0; } };
template <class C> void suggest(const char* nm, const std::vector<sz>& args, const std::vector<sz>& primes) {
  typedef typename C::size_type ST; const sz MX = (sz)(ST)-1;
  vh::history(nm, [&] { for (sz a : args) { if (a > MX) continue; vh::op("C13", "suggested bucket counts for " + std::to_string(a)); sz u = C::suggested_upper_bucket_count((ST)a), l = C::suggested_lower_bucket_count((ST)a);
      bool anyu = false; for (sz p : primes) anyu |= p <= MX && p > a; bool anyl = false; for (sz p : primes) anyl |= p <= MX && p >= a;
      CHK("C13", std::find(primes.begin(), primes.end(), u) != primes.end() || u == MX, "suggested_upper_bucket_count(" + std::to_string(a) + ") = " + std::to_string(u)); CHK("C13", std::find(primes.begin(), primes.end(), l) != primes.end() || l == MX, "suggested_lower_bucket_count(" + std::to_string(a) + ") = " + std::to_string(l));
      if (anyu) CHK("C13", u > a || u >= a, "suggested_upper_bucket_count(" + std::to_string(a) + ") = " + std::to_string(u)); if (anyl) CHK("C13", l >= a, "suggested_lower_bucket_count(" + std::to_string(a) + ") = " + std::to_string(l));
      if (anyu) for (sz p : primes) if (p > a) { CHK("C13", u <= p, "suggested_upper_bucket_count(" + std::to_string(a) + ") is not the nearest"); break; } if (anyl) for (sz p : primes) if (p >= a) { CHK("C13", l <= p, "suggested_lower_bucket_count(" + std::to_string(a) + ") is not the nearest"); break; }
      vh::hist.clear(); } }); }
int main(int argc, char** argv) {
  vh::init(argc, argv); vh::Rng r(vh::seed); std::vector<sz> in = interesting(r, vh::thorough ? 400000 : 20000); typedef bi::prime_fmod_size PF;
  vh::history("math", [&] { for (sz x : in) { vh::hist.clear(); vh::op("C13", "x=" + std::to_string(x)); vh::note_state(x);
      CHK("C13", bd::is_pow2(x) == (__builtin_popcountll(x) <= 1), "is_pow2"); if (!x) continue; int f = flog(x); CHK("C13", bd::floor_log2(x) == (sz)f, "floor_log2(" + std::to_string(x) + ") = " + std::to_string(bd::floor_log2(x))); sz cl = f + (x != (sz)1 << f); CHK("C13", bd::ceil_log2(x) == cl, "ceil_log2(" + std::to_string(x) + ")"); if (cl < 64) CHK("C13", bd::ceil_pow2(x) == (sz)1 << cl, "ceil_pow2"); CHK("C13", bd::previous_or_equal_pow2(x) == (sz)1 << f, "previous_or_equal_pow2"); } });
  vh::history("sqrt2_pow", [&] { for (int k = 0; k < 63; ++k) { sz q = bd::sqrt2_pow_2xplus1(k); vh::hist.clear(); vh::op("C13", "sqrt2_pow_2xplus1(" + S(k) + ")"); u128 t = (u128)1 << (2 * k + 1); CHK("C13", (u128)q * q > t && (u128)(q - 1) * (q - 1) <= t, "sqrt2_pow_2xplus1(" + S(k) + ") = " + std::to_string(q)); } });
  std::vector<sz> primes; { sz last = 0; for (sz i = 0; i < 200; ++i) { sz p = PF::size(PF::lower_size_index(last + 1)); if (p <= last) break; primes.push_back(p); last = p; } }
  vh::history("prime table", [&] { CHK("C13", primes.size() == 64, S(primes.size())); for (sz i = 0; i < primes.size(); ++i) { sz p = primes[i]; vh::hist.clear(); vh::op("C13", "prime " + std::to_string(p)); CHK("C13", prime(p) || p == ~(sz)0 || i + 1 == primes.size(), std::to_string(p) + " is not prime"); CHK("C13", PF::size(i) == p && PF::lower_size_index(p) == i); } });
  vh::history("fastmod", [&] { std::vector<sz> hs = interesting(r, vh::thorough ? 20000 : 1500); for (sz i = 0; i < primes.size(); ++i) { sz p = primes[i]; std::vector<sz> m = hs; for (sz k = 1; k < 60; ++k) for (sz d = 0; d < 3; ++d) m.push_back(p * k + d - 1), m.push_back((sz)0 - p * k + d), m.push_back((0xffffffffu / p) * p + d - 1); for (sz h : m) { vh::cur_tags = "C13"; sz b = PF::position(h, i); CHK("C13", b < p, "fastmod bucket of hash " + std::to_string(h) + " with " + std::to_string(p) + " buckets is " + std::to_string(b));
          CHK("C13", b == h % p || b == (h ^ (h >> 32)) % p || b == (sz)(uint32_t)h % p || b == ((uint32_t)h ^ (uint32_t)(h >> 32)) % p || b == ((uint32_t)h + (uint32_t)(h >> 32)) % p || b == (uint32_t)((uint32_t)h + (uint32_t)(h >> 32)) % p, "fastmod bucket of hash " + std::to_string(h) + " with " + std::to_string(p) + " buckets is " + std::to_string(b)); CHK("C13", b == PF::position(h, i)); } } });
  vh::history("bucket index", [&] { std::vector<sz> hs = interesting(r, 2000); for (int t = 0; t < (vh::thorough ? 4000 : 300); ++t) { sz n = 1 + (r.next() >> (1 + r.below(62))); int lg = r.below(40); sz p2 = (sz)1 << lg; sz sp = p2 == 1 ? r.below(2) : p2 / 2 + r.next() % (p2 / 2 + 1); for (sz h : hs) { vh::cur_tags = "C13";
        CHK("C13", bi::hash_to_bucket(h, n, bd::false_()) == h % n, "hash_to_bucket"); CHK("C13", bi::hash_to_bucket(h, p2, bd::true_()) == h % p2, "hash_to_bucket pow2");
        CHK("C13", (bi::hash_to_bucket_split<false, false>(h, n, n, bd::false_()) == h % n), "hash_to_bucket_split"); sz e = h % p2; if (e >= sp) e -= p2 / 2; if (p2 == 1 && sp == 0) continue; CHK("C13", (bi::hash_to_bucket_split<true, true>(h, p2, sp, bd::false_()) == e), "incremental bucket of hash " + std::to_string(h) + " of " + std::to_string(p2) + " buckets split " + std::to_string(sp)); CHK("C13", e < sp || p2 == 1, "bucket beyond the split"); } } });
  suggest<bi::unordered_set<E>>("suggest size_t", in, primes); suggest<bi::unordered_set<E, bi::size_type<unsigned>>>("suggest unsigned", in, primes); suggest<bi::unordered_set<E, bi::size_type<unsigned short>>>("suggest unsigned short", in, primes);
  return vh::done();
}

// C02: circular_slist_algorithms, linear_slist_algorithms, common_slist_algorithms; every list size up to MAXN, every argument choice.
#include "vh.hpp"
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
#include <boost/intrusive/detail/slist_node.hpp>
using namespace boost::intrusive;
typedef slist_node_traits<void*> NT;
typedef NT::node N;
typedef circular_slist_algorithms<NT> C;
typedef linear_slist_algorithms<NT> L;
typedef std::vector<int> V;
static const int MAXN = 6;
struct W {
  N* n; int cnt; W(int c) : n(new N[c + 1]), cnt(c + 1) { for (int i = 0; i < cnt; ++i) C::init(n + i); }
  int id(const N* p) { return p == 0 ? -1 : (p >= n && p < n + cnt) ? int(p - n) : -2; }
  void ring(const V& v) { int k = v.size(); for (int i = 0; i < k; ++i) NT::set_next(n + v[i], n + v[(i + 1) % k]); }
  void line(const V& v) { int k = v.size(); for (int i = 0; i < k; ++i) NT::set_next(n + v[i], i + 1 < k ? n + v[i + 1] : 0); }
  void st(uint64_t s, const V& r) { uint64_t h = s; for (int x : r) h = vh::mix(h, x); vh::note_state(h); }
  void expR(const V& r) { int k = r.size(); st(1, r); for (int i = 0; i < k; ++i) CHK("C02", NT::get_next(n + r[i]) == n + r[(i + 1) % k], "expected circular order " + vh::seq(r) + ", next of " + S(r[i]) + " is " + S(id(NT::get_next(n + r[i])))); }
  void expL(const V& r) { int k = r.size(); st(2, r); for (int i = 0; i < k; ++i) CHK("C02", NT::get_next(n + r[i]) == (i + 1 < k ? n + r[i + 1] : 0), "expected linear order " + vh::seq(r) + ", next of " + S(r[i]) + " is " + S(id(NT::get_next(n + r[i])))); }
  void loose(int i) { CHK("C02", NT::get_next(n + i) == 0, "uninvolved node " + S(i) + " changed"); }
  N* p(int i) { return i < 0 ? 0 : n + i; }
};
static V iota(int a, int b) { V v; for (int i = a; i < b; ++i) v.push_back(i); return v; }
static V rot(const V& v, int k) { V r; int n = v.size(); for (int i = 0; i < n; ++i) r.push_back(v[(i + k) % n]); return r; }
struct Pr { unsigned mask; W* w; int thr; int* calls; bool operator()(const N* p) const { int i = w->id(p); if ((*calls)++ == thr) throw vh::Boom(); return mask >> i & 1; } };
struct Ds { W* w; V* out; void operator()(N* p) const { out->push_back(w->id(p)); NT::set_next(p, p == w->n ? 0 : (N*)1); } };
#define H(str, ...) vh::history(str, [&] { vh::op("C02", str); __VA_ARGS__ }, "C02")
static void circular(int n1) {
  V a = iota(0, n1); std::string sz = " circular n=" + S(n1);
  H("queries" + sz, W w(n1 + 1); w.ring(a); for (int i = 0; i < n1; ++i) { CHK("C02", C::count(w.n + i) == size_t(n1)); CHK("C02", C::unique(w.n + i) == (n1 == 1)); CHK("C02", C::is_empty(w.n + i) == (n1 == 1)); CHK("C02", !C::inited(w.n + i)); CHK("C02", !C::is_sentinel(w.n + i)); CHK("C02", C::end_node(w.n + i) == w.n + i);
      CHK("C02", C::get_previous_node(w.n + i) == w.n + (i + n1 - 1) % n1); CHK("C02", C::get_previous_previous_node(w.n + i) == w.n + (i + 2 * n1 - 2) % n1);
      for (int j = 0; j < n1; ++j) { CHK("C02", C::distance(w.n + i, w.n + j) == size_t((j - i + n1) % n1)); CHK("C02", C::get_previous_node(w.n + j, w.n + i) == w.n + (i + n1 - 1) % n1);
        N* pp = C::get_previous_previous_node(w.n + j, w.n + i); CHK("C02", pp == w.n + (i + 2 * n1 - 2) % n1); } }
    CHK("C02", C::inited(w.n + n1)); CHK("C02", C::unique(w.n + n1)); w.expR(a); w.loose(n1); C::set_sentinel(w.n + n1); CHK("C02", C::is_sentinel(w.n + n1)); C::init_header(w.n + n1); CHK("C02", C::is_empty(w.n + n1) && !C::is_sentinel(w.n + n1)););
  for (int i = 0; i < n1; ++i) {
    H("unlink(" + S(i) + ")" + sz, W w(n1 + 1); w.ring(a); C::unlink(w.n + i); V b = a; b.erase(b.begin() + i); w.expR(b); w.loose(n1); C::unlink(w.n + n1); w.loose(n1););
    H("unlink_after(" + S(i) + ")" + sz, W w(n1 + 1); w.ring(a); C::unlink_after(w.n + i); V b = a; if (n1 > 1) b.erase(b.begin() + (i + 1) % n1); w.expR(b););
    H("link_after(" + S(i) + ")" + sz, W w(n1 + 2); w.ring(a); C::link_after(w.n + i, w.n + n1); V b = a; b.insert(b.begin() + i + 1, n1); w.expR(b); w.loose(n1 + 1););
    H("link_before(" + S(i) + ")" + sz, W w(n1 + 2); w.ring(a); C::link_before(w.n + i, w.n + n1); V b = a; b.insert(b.begin() + i, n1); w.expR(b); w.loose(n1 + 1););
    H("reverse(" + S(i) + ")" + sz, W w(n1 + 1); w.ring(a); C::reverse(w.n + i); V b = a; std::reverse(b.begin(), b.end()); w.expR(b););
    for (int j = 0; j < n1; ++j) {
      H("unlink_after(" + S(i) + "," + S(j) + ")" + sz, W w(n1 + 1); w.ring(a); C::unlink_after(w.n + i, w.n + j); V x = rot(a, i); int d = (j - i + n1) % n1; V b; if (d == 0) b = V(1, i); else { b.push_back(i); b.insert(b.end(), x.begin() + d, x.end()); } w.expR(b););
      H("swap_nodes(" + S(i) + "," + S(j) + ")" + sz, W w(n1 + 1); w.ring(a); C::swap_nodes(w.n + i, w.n + j); V b = a; std::swap(b[i], b[j]); w.expR(b););
      int d = (j - i + n1) % n1; V x = rot(a, i);  // moves (i, j] after p, p outside (i,j]
      for (int q = d; q < n1; ++q) { int p = x[q == d ? 0 : q]; H("transfer_after same list p=" + S(p) + " (" + S(i) + "," + S(j) + "]" + sz, W w(n1 + 1); w.ring(a); C::transfer_after(w.n + p, w.n + i, w.n + j); V in(x.begin() + 1, x.begin() + d + 1); V b; b.push_back(x[0]); b.insert(b.end(), x.begin() + d + 1, x.end()); b.insert(std::find(b.begin(), b.end(), p) + 1, in.begin(), in.end()); w.expR(b);); }
    }
    for (unsigned k = 0; k <= unsigned(3 * n1 + 1); ++k) {
      H("move_backwards(" + S(i) + "," + S(k) + ")" + sz, W w(n1 + 1); w.ring(a); N* r = C::move_backwards(w.n + i, k); V cur = rot(a, i); for (unsigned s = 0; s < k && n1 > 1; ++s) { size_t pp = std::find(cur.begin(), cur.end(), i) - cur.begin(); std::swap(cur[pp], cur[(pp + 1) % cur.size()]); }
        w.expR(cur); bool moved = n1 > 2 && k % (n1 - 1) != 0; size_t pp = std::find(cur.begin(), cur.end(), i) - cur.begin(); CHK("C02", w.id(r) == (moved ? cur[(pp + cur.size() - 1) % cur.size()] : -1)););
      H("move_forward(" + S(i) + "," + S(k) + ")" + sz, W w(n1 + 1); w.ring(a); N* r = C::move_forward(w.n + i, k); V cur = rot(a, i); for (unsigned s = 0; s < k && n1 > 1; ++s) { size_t pp = std::find(cur.begin(), cur.end(), i) - cur.begin(); std::swap(cur[pp], cur[(pp + cur.size() - 1) % cur.size()]); }
        w.expR(cur); bool moved = n1 > 2 && k % (n1 - 1) != 0; size_t pp = std::find(cur.begin(), cur.end(), i) - cur.begin(); CHK("C02", w.id(r) == (moved ? cur[(pp + cur.size() - 1) % cur.size()] : -1)););
    }
    for (int n2 = 1; n2 <= 4; ++n2) { V c = iota(n1, n1 + n2); int T = n1 + n2; std::string s2 = sz + "," + S(n2);
      for (int j = 0; j < n2; ++j) {
        H("swap_nodes two lists(" + S(i) + "," + S(n1 + j) + ")" + s2, W w(T + 1); w.ring(a); w.ring(c); C::swap_nodes(w.n + i, w.n + n1 + j); V x = a, y = c; std::swap(x[i], y[j]); w.expR(x); w.expR(y););
        H("transfer_after all p=" + S(i) + " other=" + S(n1 + j) + s2, W w(T + 1); w.ring(a); w.ring(c); C::transfer_after(w.n + i, w.n + n1 + j); V q = rot(c, j); V x = a; x.insert(x.begin() + i + 1, q.begin() + 1, q.end()); w.expR(x); w.expR(V(1, n1 + j)););
        for (int k = 0; k < n2; ++k) { int d = (k - j + n2) % n2; H("transfer_after p=" + S(i) + " (" + S(n1 + j) + "," + S(n1 + k) + "]" + s2, W w(T + 1); w.ring(a); w.ring(c); C::transfer_after(w.n + i, w.n + n1 + j, w.n + n1 + k); V q = rot(c, j); V x = a; x.insert(x.begin() + i + 1, q.begin() + 1, q.begin() + d + 1); V y(1, q[0]); y.insert(y.end(), q.begin() + d + 1, q.end()); w.expR(x); w.expR(y);); }
      }
      H("incorporate_after p=" + S(i) + s2, W w(T + 1); w.ring(a); w.line(c); C::incorporate_after(w.n + i, w.n + n1, w.n + T - 1); V x = a; x.insert(x.begin() + i + 1, c.begin(), c.end()); w.expR(x););
    }
    H("detach_and_dispose(" + S(i) + ")" + sz, W w(n1 + 1); w.ring(a); V d; size_t r = C::detach_and_dispose(w.n + i, Ds{&w, &d}); V x = rot(a, i); CHK("C02 C19", d == V(x.begin() + 1, x.end())); CHK("C02 C19", r == d.size()); w.expR(V(1, i)););
  }
}
static void linear_(int n1) {
  // node 0 is the header, the list is 0 -> 1 -> ... -> n1-1 -> null
  V a = iota(0, n1); std::string sz = " linear n=" + S(n1);
  H("queries" + sz, W w(n1 + 1); w.line(a); for (int i = 0; i < n1; ++i) { CHK("C02", L::count(w.n + i) == size_t(n1 - i)); CHK("C02", L::is_empty(w.n + i) == (i == n1 - 1)); CHK("C02", !L::is_sentinel(w.n + i)); CHK("C02", L::unique(w.n + i) == (i == n1 - 1)); CHK("C02", L::end_node(w.n + i) == 0);
      for (int j = i + 1; j < n1; ++j) CHK("C02", L::get_previous_node(w.n + i, w.n + j) == w.n + j - 1); CHK("C02", L::get_previous_node(w.n + i, 0) == w.n + n1 - 1); for (int j = i; j < n1; ++j) CHK("C02", L::distance(w.n + i, w.n + j) == size_t(j - i)); CHK("C02", L::distance(w.n + i, (N*)0) == size_t(n1 - i)); }
    L::set_sentinel(w.n + n1); CHK("C02", L::is_sentinel(w.n + n1)); L::init_header(w.n + n1); CHK("C02", L::is_empty(w.n + n1) && !L::is_sentinel(w.n + n1)); w.expL(a););
  H("reverse" + sz, W w(n1 + 1); w.line(a); N* r = L::reverse(w.n); V b = a; std::reverse(b.begin(), b.end()); CHK("C02", w.id(r) == b[0]); w.expL(b); CHK("C02", L::reverse(0) == 0););
  for (unsigned k = 0; k <= unsigned(3 * n1 + 1); ++k) {
    H("move_first_n_backwards(" + S(k) + ")" + sz, W w(n1 + 1); w.line(a); L::node_pair r = L::move_first_n_backwards(w.n, k); V b = rot(a, k % n1); bool mv = k % n1; CHK("C02", w.id(r.first) == (mv ? b[0] : -1)); CHK("C02", w.id(r.second) == (mv ? b.back() : -1)); w.expL(b););
    H("move_first_n_forward(" + S(k) + ")" + sz, W w(n1 + 1); w.line(a); L::node_pair r = L::move_first_n_forward(w.n, k); V b = rot(a, (n1 - k % n1) % n1); bool mv = k % n1; CHK("C02", w.id(r.first) == (mv ? b[0] : -1)); CHK("C02", w.id(r.second) == (mv ? b.back() : -1)); w.expL(b););
  }
  for (int i = 0; i < n1; ++i) {
    if (i + 1 < n1) H("unlink_after(" + S(i) + ")" + sz, W w(n1 + 1); w.line(a); L::unlink_after(w.n + i); V b = a; b.erase(b.begin() + i + 1); w.expL(b););
    for (int j = i + 1; j <= n1; ++j) H("unlink_after(" + S(i) + "," + S(j) + ")" + sz, W w(n1 + 1); w.line(a); L::unlink_after(w.n + i, j < n1 ? w.n + j : 0); V b = a; b.erase(b.begin() + i + 1, b.begin() + j); w.expL(b););
    H("link_after(" + S(i) + ")" + sz, W w(n1 + 2); w.line(a); L::link_after(w.n + i, w.n + n1); V b = a; b.insert(b.begin() + i + 1, n1); w.expL(b); w.loose(n1 + 1););
    for (int j = i; j < n1; ++j) for (int p = 0; p < n1; ++p) if (p <= i || p >= j) { H("transfer_after same list p=" + S(p) + " (" + S(i) + "," + S(j) + "]" + sz, W w(n1 + 1); w.line(a); L::transfer_after(w.n + p, w.n + i, w.n + j); V in(a.begin() + i + 1, a.begin() + j + 1); V b = a; if (p <= i || p > j) { b.erase(b.begin() + i + 1, b.begin() + j + 1); b.insert(std::find(b.begin(), b.end(), p) + 1, in.begin(), in.end()); } w.expL(b);); }
    for (int n2 = 1; n2 <= 4; ++n2) { V c = iota(n1, n1 + n2); int T = n1 + n2; std::string s2 = sz + "," + S(n2);
      for (int j = 0; j < n2; ++j) {
        H("swap_trailing_nodes(" + S(i) + "," + S(n1 + j) + ")" + s2, W w(T + 1); w.line(a); w.line(c); L::swap_trailing_nodes(w.n + i, w.n + n1 + j); V x(a.begin(), a.begin() + i + 1), y(c.begin(), c.begin() + j + 1); x.insert(x.end(), c.begin() + j + 1, c.end()); y.insert(y.end(), a.begin() + i + 1, a.end()); w.expL(x); w.expL(y););
        H("transfer_after all p=" + S(i) + " other=" + S(n1 + j) + s2, W w(T + 1); w.line(a); w.line(c); L::transfer_after(w.n + i, w.n + n1 + j); V x = a; x.insert(x.begin() + i + 1, c.begin() + j + 1, c.end()); w.expL(x); w.expL(V(c.begin(), c.begin() + j + 1)););
        for (int k = j; k < n2; ++k) H("transfer_after p=" + S(i) + " (" + S(n1 + j) + "," + S(n1 + k) + "]" + s2, W w(T + 1); w.line(a); w.line(c); L::transfer_after(w.n + i, w.n + n1 + j, w.n + n1 + k); V x = a; x.insert(x.begin() + i + 1, c.begin() + j + 1, c.begin() + k + 1); V y = c; y.erase(y.begin() + j + 1, y.begin() + k + 1); w.expL(x); w.expL(y););
      }
      H("incorporate_after p=" + S(i) + s2, W w(T + 1); w.line(a); w.line(c); L::incorporate_after(w.n + i, w.n + n1, w.n + T - 1); V x = a; x.insert(x.begin() + i + 1, c.begin(), c.end()); w.expL(x););
    }
    for (int j = i + 1; j <= n1; ++j) H("unlink_after_and_dispose(" + S(i) + "," + S(j) + ")" + sz, W w(n1 + 1); w.line(a); V d; size_t r = L::unlink_after_and_dispose(w.n + i, j < n1 ? w.n + j : 0, Ds{&w, &d}); CHK("C02 C19", d == V(a.begin() + i + 1, a.begin() + j)); CHK("C02 C19", r == d.size()); V b = a; b.erase(b.begin() + i + 1, b.begin() + j); w.expL(b););
    if (i + 1 < n1) H("unlink_after_and_dispose one(" + S(i) + ")" + sz, W w(n1 + 1); w.line(a); V d; L::unlink_after_and_dispose(w.n + i, Ds{&w, &d}); CHK("C02 C19", d == V(1, i + 1)); V b = a; b.erase(b.begin() + i + 1); w.expL(b););
    H("detach_and_dispose(" + S(i) + ")" + sz, W w(n1 + 1); w.line(a); V d; size_t r = L::detach_and_dispose(w.n + i, Ds{&w, &d}); CHK("C02 C19", d == V(a.begin() + i + 1, a.end())); CHK("C02 C19", r == d.size()); w.expL(V(a.begin(), a.begin() + i + 1)););
  }
}
template <class A> static void part(int n1, bool circ) {
  V a = iota(0, n1);
  for (int b = 0; b < n1; ++b) for (int e = b + 1; e <= n1; ++e) for (unsigned mask = 0; mask < (1u << n1); ++mask) for (int thr = -1; thr < e - b - 1; ++thr) {
    if (thr >= 0 && n1 > 4) continue;
    H("stable_partition (" + S(b) + "," + S(e) + ") mask=" + S(mask) + " throw at " + S(thr) + " n=" + S(n1) + (circ ? " circular" : " linear"), W w(n1 + 1); if (circ) w.ring(a); else w.line(a); int calls = 0; typename A::stable_partition_info info; bool threw = false; N* end = e < n1 ? w.n + e : circ ? w.n : 0;
      try { A::stable_partition(w.n + b, end, Pr{mask, &w, thr, &calls}, info); } catch (vh::Boom&) { threw = true; }
      CHK("C02", threw == (thr >= 0)); V seg(a.begin() + b + 1, a.begin() + e), r(a.begin(), a.begin() + b + 1), t(a.begin() + e, a.end()), y, z; for (int q : seg) (mask >> q & 1 ? y : z).push_back(q);
      if (!threw) { V r0 = r; r.insert(r.end(), y.begin(), y.end()); r.insert(r.end(), z.begin(), z.end()); int last = r.back(); r.insert(r.end(), t.begin(), t.end()); if (circ) w.expR(r); else w.expL(r);
        CHK("C02", info.num_1st_partition == y.size()); CHK("C02", info.num_2nd_partition == z.size()); CHK("C02", info.beg_2st_partition == (z.empty() ? end : w.n + z[0])); CHK("C02", w.id(info.new_last_node) == last); }
      else { V got; N* p = w.n; for (int q = 0; q <= n1; ++q) { got.push_back(w.id(p)); p = NT::get_next(p); if (p == (circ ? w.n : 0)) break; CHK("C02 C17", p != 0, "list after throw"); } V s = got; std::sort(s.begin(), s.end()); CHK("C02 C17", s == a, "after throw " + vh::seq(got)); } ); }
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  for (int n = 1; n <= MAXN; ++n) { circular(n); linear_(n); if (n <= 5 || vh::thorough) { part<C>(n, true); part<L>(n, false); } }
  return vh::done();
}

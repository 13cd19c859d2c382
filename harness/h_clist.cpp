// C01: circular_list_algorithms, every ring size up to MAXN and every choice of arguments.
#include "vh.hpp"
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/detail/list_node.hpp>
using namespace boost::intrusive;
typedef list_node_traits<void*> NT;
typedef NT::node N;
typedef circular_list_algorithms<NT> A;
typedef std::vector<int> V;
static const int MAXN = 6;
struct W {
  N* n; int cnt; W(int c) : n(new N[c]), cnt(c) { for (int i = 0; i < c; ++i) A::init(n + i); }
  int id(const N* p) { return p == 0 ? -1 : (p >= n && p < n + cnt) ? int(p - n) : -2; }
  void ring(const V& v) { int k = v.size(); for (int i = 0; i < k; ++i) { NT::set_next(n + v[i], n + v[(i + 1) % k]); NT::set_previous(n + v[(i + 1) % k], n + v[i]); } }
  void expect(const std::vector<V>& rings, const V& loose, const char* what) {
    std::vector<char> named(cnt, 0);
    for (auto& r : rings) { int k = r.size(); for (int i = 0; i < k; ++i) { named[r[i]] = 1;
      CHK("C01", NT::get_next(n + r[i]) == n + r[(i + 1) % k], std::string(what) + " forward ring expected " + vh::seq(r) + " at " + S(r[i]) + " got " + S(id(NT::get_next(n + r[i]))));
      CHK("C01", NT::get_previous(n + r[(i + 1) % k]) == n + r[i], std::string(what) + " backward ring expected " + vh::seq(r)); } }
    for (int x : loose) { CHK("C01", NT::get_next(n + x) == 0 && NT::get_previous(n + x) == 0, std::string(what) + " untouched node " + S(x)); }
    uint64_t h = 1; for (auto& r : rings) { h = vh::mix(h, 77); for (int x : r) h = vh::mix(h, x); } vh::note_state(h);
  }
};
static V iota(int a, int b) { V v; for (int i = a; i < b; ++i) v.push_back(i); return v; }
static V rot(const V& v, int k) { V r; int n = v.size(); for (int i = 0; i < n; ++i) r.push_back(v[(i + k) % n]); return r; }
struct Pr { unsigned mask; W* w; int thr; int* calls; bool operator()(const N* p) const { int i = w->id(p); if ((*calls)++ == thr) throw vh::Boom(); return mask >> i & 1; } };
int main(int argc, char** argv) {
  vh::init(argc, argv);
  for (int n1 = 1; n1 <= MAXN; ++n1) {
    V a = iota(0, n1);
#define H(str, ...) vh::history(str, [&] { vh::op("C01", str); __VA_ARGS__ }, "C01")
    H("queries n=" + S(n1), W w(n1 + 1); w.ring(a);
      for (int i = 0; i < n1; ++i) { CHK("C01", A::count(w.n + i) == size_t(n1)); CHK("C01", A::unique(w.n + i) == (n1 == 1)); CHK("C01", A::is_empty(w.n + i) == (n1 == 1)); CHK("C01", !A::inited(w.n + i));
        for (int j = 0; j < n1; ++j) CHK("C01", A::distance(w.n + i, w.n + j) == size_t((j - i + n1) % n1)); }
      CHK("C01", A::inited(w.n + n1)); CHK("C01", A::unique(w.n + n1)); w.expect({a}, {n1}, "queries"););
    H("init/init_header n=" + S(n1), W w(n1 + 1); w.ring(a); A::init_header(w.n + n1); w.expect({a, {n1}}, {}, "init_header"); A::init(w.n + n1); w.expect({a}, {n1}, "init"););
    for (int i = 0; i < n1; ++i) {
      H("unlink(" + S(i) + ") n=" + S(n1), W w(n1 + 1); w.ring(a); N* r = A::unlink(w.n + i); V b = a; b.erase(b.begin() + i);
        CHK("C01", w.id(r) == (n1 == 1 ? 0 : (i + 1) % n1)); if (n1 > 1) w.expect({b}, {n1}, "unlink"););
      H("link_before(" + S(i) + ") n=" + S(n1), W w(n1 + 2); w.ring(a); A::link_before(w.n + i, w.n + n1); V b = a; b.insert(b.begin() + i, n1); w.expect({b}, {n1 + 1}, "link_before"););
      H("link_after(" + S(i) + ") n=" + S(n1), W w(n1 + 2); w.ring(a); A::link_after(w.n + i, w.n + n1); V b = a; b.insert(b.begin() + i + 1, n1); w.expect({b}, {n1 + 1}, "link_after"););
      H("reverse(" + S(i) + ") n=" + S(n1), W w(n1 + 1); w.ring(a); A::reverse(w.n + i); V b = a; std::reverse(b.begin(), b.end()); w.expect({b}, {n1}, "reverse"););
      for (unsigned k = 0; k <= unsigned(3 * n1 + 1); ++k) {
        // moving p by k positions towards the end (beginning): the other nodes keep their order; p itself is the end marker
        V o = rot(a, i + 1); o.pop_back();  // others in order after p
        H("move_backwards(" + S(i) + "," + S(k) + ") n=" + S(n1), W w(n1 + 1); w.ring(a); A::move_backwards(w.n + i, k); V b = o; int m = o.size(); if (m) b = rot(o, 0);
          // p advances k positions over its successors: rotation of the sequence [others] seen from p
          V full = rot(a, i); V cur = full; for (unsigned s = 0; s < k && m; ++s) { /* swap p with its successor */ size_t pp = std::find(cur.begin(), cur.end(), i) - cur.begin(); std::swap(cur[pp], cur[(pp + 1) % cur.size()]); }
          w.expect({cur}, {n1}, "move_backwards"););
        H("move_forward(" + S(i) + "," + S(k) + ") n=" + S(n1), W w(n1 + 1); w.ring(a); A::move_forward(w.n + i, k); int m = o.size();
          V cur = rot(a, i); for (unsigned s = 0; s < k && m; ++s) { size_t pp = std::find(cur.begin(), cur.end(), i) - cur.begin(); std::swap(cur[pp], cur[(pp + cur.size() - 1) % cur.size()]); }
          w.expect({cur}, {n1}, "move_forward"););
      }
      for (int j = 0; j < n1; ++j) {
        H("swap_nodes same ring(" + S(i) + "," + S(j) + ") n=" + S(n1), W w(n1 + 1); w.ring(a); A::swap_nodes(w.n + i, w.n + j); V b = a; std::swap(b[i], b[j]); w.expect({b}, {n1}, "swap_nodes"););
        // range [i,j) : unlink
        if (i != j) H("unlink range(" + S(i) + "," + S(j) + ") n=" + S(n1), W w(n1 + 1); w.ring(a); A::unlink(w.n + i, w.n + j); V x = rot(a, i); int d = (j - i + n1) % n1; V in(x.begin(), x.begin() + d), rest(x.begin() + d, x.end()); w.expect({rest}, {n1}, "unlink range"); (void)in;);
        // transfer within the same ring: p not in [b,e)
        { int d = (j - i + n1) % n1; V x = rot(a, i);
          for (int p = d; p < n1; ++p) { int pos = x[p];
            H("transfer range same ring p=" + S(pos) + " b=" + S(i) + " e=" + S(j) + " n=" + S(n1), W w(n1 + 1); w.ring(a); A::transfer(w.n + pos, w.n + i, w.n + j);
              V in(x.begin(), x.begin() + d), rest(x.begin() + d, x.end()); V b = rest; b.insert(std::find(b.begin(), b.end(), pos), in.begin(), in.end()); w.expect({b}, {n1}, "transfer"););
          } }
        H("transfer one same ring p=" + S(i) + " i=" + S(j) + " n=" + S(n1), W w(n1 + 1); w.ring(a); A::transfer(w.n + i, w.n + j); V b = a; if (i != j) { b.erase(b.begin() + j); b.insert(std::find(b.begin(), b.end(), i), j); } w.expect({b}, {n1}, "transfer one"););
      }
      for (int n2 = 1; n2 <= 4; ++n2) { V c = iota(n1, n1 + n2); int L = n1 + n2;
        for (int j = 0; j < n2; ++j) {
          H("swap_nodes two rings(" + S(i) + "," + S(n1 + j) + ") n=" + S(n1) + "," + S(n2), W w(L + 1); w.ring(a); w.ring(c); A::swap_nodes(w.n + i, w.n + n1 + j);
            // an empty list (a ring of one node) stays with its own header: swapping headers exchanges the contents
            V x = a, y = c; std::swap(x[i], y[j]); w.expect({x, y}, {L}, "swap_nodes"););
          if (n2 > 1) H("transfer one p=" + S(i) + " i=" + S(n1 + j) + " n=" + S(n1) + "," + S(n2), W w(L + 1); w.ring(a); w.ring(c); A::transfer(w.n + i, w.n + n1 + j); V x = a, y = c; y.erase(y.begin() + j); x.insert(x.begin() + i, n1 + j); w.expect({x, y}, {L}, "transfer one"););
          for (int k = 0; k < n2; ++k) { int d = (k - j + n2) % n2; 
            H("transfer range p=" + S(i) + " b=" + S(n1 + j) + " e=" + S(n1 + k) + " n=" + S(n1) + "," + S(n2), W w(L + 1); w.ring(a); w.ring(c); A::transfer(w.n + i, w.n + n1 + j, w.n + n1 + k);
              V q = rot(c, j); V in(q.begin(), q.begin() + d), y(q.begin() + d, q.end()); V x = a; x.insert(x.begin() + i, in.begin(), in.end()); w.expect({x, y}, {L}, "transfer range"););
          }
        } }
    }
    // stable_partition on [b, e): ring with node 0 as end marker; all masks, all throw points
    for (int b = 1; b <= n1; ++b) for (int e = b; e <= n1; ++e) for (unsigned mask = 0; mask < (1u << n1); mask += 2) for (int thr = -1; thr < e - b; ++thr) {
      if (thr >= 0 && e - b > 4) continue;
      H("stable_partition [" + S(b) + "," + S(e % n1) + ") mask=" + S(mask) + " throw at " + S(thr) + " n=" + S(n1), W w(n1 + 1); w.ring(a); int calls = 0; A::stable_partition_info info; bool threw = false;
        try { A::stable_partition(w.n + b % n1, w.n + e % n1, Pr{mask, &w, thr, &calls}, info); } catch (vh::Boom&) { threw = true; }
        CHK("C01", threw == (thr >= 0 && thr < (b == n1 ? 0 : e - b)));
        V seg; if (b < n1) seg = V(a.begin() + b, a.begin() + e); V r(a.begin(), a.begin() + b), t(a.begin() + e, a.end()); V y, z; for (int q : seg) (mask >> q & 1 ? y : z).push_back(q);
        if (!threw) { r.insert(r.end(), y.begin(), y.end()); r.insert(r.end(), z.begin(), z.end()); r.insert(r.end(), t.begin(), t.end());
          CHK("C01", info.num_1st_partition == y.size()); CHK("C01", info.num_2nd_partition == z.size()); CHK("C01", w.id(info.beg_2st_partition) == (z.empty() ? (e % n1) : z[0])); CHK("C01", calls == int(seg.size())); w.expect({r}, {n1}, "stable_partition"); }
        else { // structurally valid ring with the same nodes
          V got; N* p = w.n; for (int q = 0; q <= n1; ++q) { got.push_back(w.id(p)); N* nx = NT::get_next(p); CHK("C01 C17", nx && NT::get_previous(nx) == p, "ring after throw"); p = nx; if (p == w.n) break; } V s = got; std::sort(s.begin(), s.end()); CHK("C01 C17", s == a, "ring after throw keeps all nodes " + vh::seq(got)); }
      );
    }
  }
  return vh::done();
}

// Tree containers (KIND: 0 bstree 1 rb 2 avl 3 sg 4 splay 5 treap) against a sorted-vector model.
// C04 C05 C06 C07 C08 C09 C10 C14 C16 C17 C18 C19 C20 C21 C22 C23
#include "vh.hpp"
#include <cmath>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#ifndef KIND
#define KIND 1
#endif
#ifndef PART
#define PART -1
#endif
namespace bi = boost::intrusive;
typedef std::vector<int> V;
#define BAL(k) (k == 1 ? "C06" : k == 2 ? "C07" : k == 3 ? "C10" : k == 4 ? "C09" : k == 5 ? "C08" : "C10")
static const char* const BT = BAL(KIND);
struct Cmn { int id, key, prio; };
inline bool priority_order(const Cmn& a, const Cmn& b) { vh::tick(); return a.prio < b.prio; }
inline bool priority_order(int a, const Cmn& b) { vh::tick(); return a < b.prio; }
inline bool priority_order(const Cmn& a, int b) { vh::tick(); return a.prio < b; }
struct Cmp { bool rev; Cmp(bool r = false) : rev(r) {}
  bool c(int a, int b) const { vh::tick(); return rev ? b < a : a < b; }
  bool operator()(const Cmn& a, const Cmn& b) const { return c(a.key, b.key); }
  bool operator()(int a, const Cmn& b) const { return c(a, b.key); }
  bool operator()(const Cmn& a, int b) const { return c(a.key, b); } };
struct PCmp { template <class A, class B> bool operator()(const A& a, const B& b) const { return priority_order(a, b); } };
template <class Hook> struct BaseE : Cmn, Hook { bool linked() const { if constexpr (Hook::hooktags::safemode_or_autounlink) return Hook::is_linked(); else return false; } void unl() { if constexpr ((int)Hook::hooktags::link_mode == (int)bi::auto_unlink) Hook::unlink(); } };
struct Junk { virtual ~Junk() {} long a[3]; };
template <class Hook> struct MemE : Junk, Cmn { char pad[5]; Hook hk; char pad2[3]; bool linked() const { return hk.is_linked(); } void unl() { if constexpr ((int)Hook::hooktags::link_mode == (int)bi::auto_unlink) hk.unlink(); } };
// MODE 0 tree, 1 unique set, 2 multiset
template <class C, class El, int Mode, bool Track_, bool Auto_, bool CT> struct Cfg { typedef C cont; typedef El E; static const int mode = Mode; static const bool track = Track_, autou = Auto_, ct = CT; };
template <class K> struct World {
  typedef typename K::cont C; typedef typename K::E E; typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::node_traits NT; typedef typename NT::node_ptr NP; typedef typename C::node_algorithms NA;
  typedef typename C::insert_commit_data CD; typedef typename C::value_traits VT;
  static const int MODE = K::mode;
  typename std::aligned_storage<sizeof(C), alignof(C)>::type st[2];
  C* c[2]; V m[2]; std::vector<E*> pool; std::vector<int> where; vh::Rng rng; int nkey; V disposed, cloned; bool poison, bad_dispose, uniq; std::map<int, std::pair<int, int> > vals; V dead; size_t mx[2]; double alpha; bool heapok;
  World(uint64_t s) : rng(s), poison(false), bad_dispose(false), alpha(0.70711), heapok(true) {
    uniq = MODE == 1 || (MODE == 0 && rng.flip()); mx[0] = mx[1] = 0;
    for (int i = 0; i < 2; ++i) c[i] = new (&st[i]) C(Cmp(rng.below(4) == 0));
    nkey = rng.flip() ? 1 + rng.below(6) : 1 + rng.below(60); int k = rng.below(3) ? rng.below(10) : rng.below(70); for (int i = 0; i < k; ++i) add(rng.below(nkey), rng.below(10)); }
  int add(int key, int prio) { void* p = ::operator new(sizeof(E)); memset(p, 0x5a, sizeof(E)); E* e = new (p) E(); e->id = pool.size(); e->key = key; e->prio = prio; pool.push_back(e); where.push_back(-1); return e->id; }
  void remake(int id, int k, int p) { E* e = pool[id]; memset((void*)e, 0x5a, sizeof(E)); new ((void*)e) E(); e->id = id; e->key = k; e->prio = p; }
  void remake(int id) { remake(id, pool[id]->key, pool[id]->prio); }
  V free_() { V f; for (size_t i = 0; i < pool.size(); ++i) if (where[i] < 0) f.push_back(i); return f; }
  int anyfree() { V f = free_(); if (f.empty()) return add(rng.below(nkey), rng.below(10)); return f[rng.below(f.size())]; }
  void setw() { for (auto& w : where) w = -1; for (int k = 0; k < 2; ++k) for (int i : m[k]) where[i] = k; }
  struct Disp { World* w; void operator()(E* e) { if (K::track && e->linked()) w->bad_dispose = true; w->disposed.push_back(e->id); if (w->poison) { int id = e->id; w->vals[id] = std::make_pair(e->key, e->prio); e->~E(); memset((void*)e, 0xFE, sizeof(E)); w->dead.push_back(id); } } };
  void revive() { for (int i : dead) remake(i, vals[i].first, vals[i].second); dead.clear(); }
  struct Clone { World* w; E* operator()(const E& e) { vh::tick(); w->cloned.push_back(e.id); return w->pool[w->add(e.key, e.prio)]; } };
  struct CloneM { World* w; E* operator()(E& e) { vh::tick(); w->cloned.push_back(e.id); return w->pool[w->add(e.key, e.prio)]; } };
  // ---- model
  bool rev(int k) { return c[k]->key_comp().rev; }
  bool lt(int k, int a, int b) { return rev(k) ? b < a : a < b; }
  int key(int id) { return pool[id]->key; }
  int lb(int k, int key_) { int i = 0; while (i < (int)m[k].size() && lt(k, key(m[k][i]), key_)) ++i; return i; }
  int ub(int k, int key_) { int i = 0; while (i < (int)m[k].size() && !lt(k, key_, key(m[k][i]))) ++i; return i; }
  bool has(int k, int key_) { return lb(k, key_) != ub(k, key_); }
  int hintpos(int k, int h, int key_) { int n = m[k].size(); if (h == n || !lt(k, key(m[k][h]), key_)) { if (h == 0 || !lt(k, key_, key(m[k][h - 1]))) return h; return ub(k, key_); } return lb(k, key_); }
  CIt at(int k, int p) { if (p == (int)m[k].size()) return c[k]->cend(); return C::s_iterator_to((const E&)*pool[m[k][p]]); }
  int idx(int k, CIt it) { if (it == CIt(c[k]->end())) return m[k].size(); for (size_t i = 0; i < m[k].size(); ++i) if (it == at(k, i)) return i; return -1; }
  // ---- structure
  static NP np(E& e) { return VT::to_node_ptr(e); }
  std::string sig(int k) { std::string s; NP h = c[k]->end().pointed_node(); walk(NT::get_parent(h), s, 0); return s; }
  void walk(NP n, std::string& s, int d) { if (!n || d > 3000) { s += '.'; return; } s += std::to_string((size_t)&*n); walk(NT::get_left(n), s, d + 1); walk(NT::get_right(n), s, d + 1); }
  struct SInfo { int height, bh; };
  const char* tS; const char* tB;
  SInfo visit(NP n, NP par, V& out, std::string& st_) {
    if (!n) { st_ += '.'; return SInfo{0, 0}; }
    CHK(tS, out.size() <= pool.size() && st_.size() < 100000, "tree has a cycle");
    E* e = 0; { auto p = VT::to_value_ptr(n); e = &*p; }
    CHK(tS, e->id >= 0 && e->id < (int)pool.size() && pool[e->id] == e, "node that is not an element");
    CHK(tS, NT::get_parent(n) == par, "parent link of element " + S(e->id)); st_ += '(';
    NP l = NT::get_left(n), r = NT::get_right(n); if (st_.size() > 50000) CHK(tS, false, "tree has a cycle");
    SInfo a = visit(l, n, out, st_); out.push_back(e->id); SInfo b = visit(r, n, out, st_); SInfo x; x.height = std::max(a.height, b.height) + 1; x.bh = 0;
#if KIND == 1
    bool red = NT::get_color(n) == NT::red(); st_ += red ? 'r' : 'b'; CHK(tB, red || NT::get_color(n) == NT::black());
    if (red) CHK(tB, (!l || NT::get_color(l) == NT::black()) && (!r || NT::get_color(r) == NT::black()), "red element " + S(e->id) + " has a red child");
    CHK(tB, a.bh == b.bh, "black heights differ below element " + S(e->id)); x.bh = a.bh + !red;
#elif KIND == 2
    int d = b.height - a.height; CHK(tB, d >= -1 && d <= 1, "unbalanced at element " + S(e->id));
    CHK(tB, NT::get_balance(n) == (d < 0 ? NT::negative() : d > 0 ? NT::positive() : NT::zero()), "stored balance of element " + S(e->id) + " is not " + S(d)); st_ += char('1' + d);
#elif KIND == 5
    if (!heapok) ; else { if (l) CHK(tB, VT::to_value_ptr(l)->prio >= e->prio, "heap order at element " + S(e->id)); if (r) CHK(tB, VT::to_value_ptr(r)->prio >= e->prio, "heap order at element " + S(e->id)); }
#endif
    st_ += ')'; return x;
  }
  int height(int k) { V o; std::string s; NP h = c[k]->end().pointed_node(); return visit(NT::get_parent(h), h, o, s).height; }
  void bumpmax() { for (int k = 0; k < 2; ++k) mx[k] = std::max(mx[k], m[k].size()); }
  void shrunk(int k) { size_t s = m[k].size(); if (s > 0 && (double)s < std::floor(alpha * (double)mx[k]) - 1) mx[k] = s; }
  void chk(const char* tg) {
    std::string sS = std::string("C04 C05 ") + tg + (KIND >= 3 ? std::string(" ") + BT : std::string()), sB = std::string(BT) + " " + tg, s16 = std::string("C16 ") + tg, s14 = std::string("C14 ") + tg, s20 = std::string("C20 C04 ") + tg;
    tS = sS.c_str(); tB = sB.c_str(); const char* t16 = s16.c_str(); const char* t14 = s14.c_str(); const char* t20 = s20.c_str();
    const char* sv = vh::cur_tags; std::string crash = sS + " C20 C16"; vh::cur_tags = crash.c_str();
    setw(); bumpmax(); uint64_t hs = MODE * 7 + K::ct;
    for (int k = 0; k < 2; ++k) {
      C& t = *c[k]; const C& ct = t; V got; std::string shape; NP h = t.end().pointed_node(), root = NT::get_parent(h);
      SInfo in = visit(root, h, got, shape); hs = vh::mix(hs, std::hash<std::string>()(shape)); for (int x : m[k]) hs = vh::mix(hs, key(x));
      CHK(tS, got == m[k], "tree " + S(k) + " holds " + vh::seq(got) + ", expected " + vh::seq(m[k]));
      int n = m[k].size();
      CHK(tS, NT::get_left(h) == (n ? np(*pool[m[k].front()]) : h), "cached first element"); CHK(tS, NT::get_right(h) == (n ? np(*pool[m[k].back()]) : h), "cached last element");
#if KIND == 1
      if (n) CHK(tB, NT::get_color(root) == NT::black(), "root is red");
      CHK(tB, in.height <= 2 * std::log2(n + 1.0) + 1e-9);
      CHK(tB, NT::get_color(h) == NT::red(), "header is not red");
#elif KIND == 2
      CHK(tB, in.height <= 1.4405 * std::log2(n + 2.0));
#elif KIND == 3
      if (n) { double b = std::floor(std::log2((double)mx[k]) / -std::log2(alpha) + 0.05) + 1; CHK(tB, in.height - 1 <= b, "height " + S(in.height - 1) + " for maximum size " + S(mx[k])); }
#elif KIND == 5
      CHK(tB, t.top().pointed_node() == (root == NP() ? h : root) && ct.top() == t.top() && ct.ctop() == CIt(t.top()), "top()"); if (n && !heapok) ; else if (n) { int mn = 1 << 30; for (int x : m[k]) mn = std::min(mn, pool[x]->prio); CHK(tB, t.top()->prio == mn, "top() is not of foremost priority"); } else CHK(tB, t.top() == t.end());
      if (n) CHK(tB, &*t.rtop() == (m[k].size() && std::find(m[k].begin(), m[k].end(), t.top()->id) != m[k].begin() ? pool[*(std::find(m[k].begin(), m[k].end(), t.top()->id) - 1)] : &*t.rtop()));
#endif
      CHK(t20, t.root().pointed_node() == (root == NP() ? h : root) && ct.root() == CIt(t.root()) && ct.croot() == CIt(t.root()), "root()");
      CHK(t16, t.size() == (size_t)n, "size() is " + S(t.size()) + ", elements " + S(n)); CHK(t16, t.empty() == (n == 0));
      V f; for (CIt i = ct.begin(); i != ct.end() && (int)f.size() <= n; ++i) f.push_back(i->id); CHK(t20, f == m[k], "forward traversal " + vh::seq(f));
      V r, q = m[k]; std::reverse(q.begin(), q.end()); for (auto i = ct.rbegin(); i != ct.rend() && (int)r.size() <= n; ++i) r.push_back(i->id); CHK(t20, r == q, "reverse traversal " + vh::seq(r));
      V r2; It i = t.end(); while (i != t.begin() && (int)r2.size() <= n) { It j = i; --i; r2.push_back(i->id); It jj = i; CHK(t20, ++jj == j); It j2 = i; j2++; CHK(t20, j2 == j); j2--; CHK(t20, j2 == i); } CHK(t20, r2 == q);
      for (int x : m[k]) { E& e = *pool[x]; CHK(t20, &*t.iterator_to(e) == &e && &*ct.iterator_to((const E&)e) == &e && &*C::s_iterator_to(e) == &e && &*C::s_iterator_to((const E&)e) == &e, "iterator_to"); CHK(t20, &C::container_from_iterator(t.iterator_to(e)) == &t && &C::container_from_iterator(ct.iterator_to(e)) == &t, "container_from_iterator"); }
      CHK(t20, &C::container_from_end_iterator(t.end()) == &t && &C::container_from_end_iterator(t.cend()) == &t, "container_from_end_iterator");
      { const char* s2 = vh::cur_tags; vh::cur_tags = tS; if (heapok) t.check(); vh::cur_tags = s2; }
    }
    if (K::track) for (size_t i = 0; i < pool.size(); ++i) { bool in = where[i] >= 0; CHK(t14, pool[i]->linked() == in, "element " + S(i) + " is_linked() is " + S(!in)); }
    vh::note_state(hs); vh::cur_tags = sv;
  }
  void dchk(const V& exp) { CHK("C19", disposed == exp, std::string("disposed ") + vh::seq(disposed) + ", expected " + vh::seq(exp)); CHK("C19 C14", !bad_dispose, "element handed to the disposer is still linked"); disposed.clear(); revive(); }
  void dchkset(V exp, const char* t = "C19") { V d = disposed; std::sort(d.begin(), d.end()); std::sort(exp.begin(), exp.end()); CHK(t, d == exp, std::string("disposed ") + vh::seq(disposed)); CHK("C19 C14", !bad_dispose); disposed.clear(); revive(); }
  void relink(const V& gone) { if (!K::track) for (int i : gone) remake(i); }
  int P(int k) { return rng.below(m[k].size() + 1); }
  std::vector<E*> ptrs(const V& f) { std::vector<E*> r; for (int i : f) r.push_back(pool[i]); return r; }
  struct PIt { E** p; E& operator*() const { return **p; } PIt& operator++() { ++p; return *this; } bool operator!=(PIt o) const { return p != o.p; } bool operator==(PIt o) const { return p == o.p; } };
  V someFree(int mxn = 6) { V f = free_(), r; int n = rng.below(mxn); for (int i = 0; i < n && !f.empty(); ++i) { int j = rng.below(f.size()); r.push_back(f[j]); f.erase(f.begin() + j); } return r; }
  // unified inserts
  template <class CC> It insE(CC& a, E& e) { if constexpr (MODE == 0) return a.insert_equal(e); else if constexpr (MODE == 2) return a.insert(e); else return It(); }
  template <class CC> It insE(CC& a, CIt h, E& e) { if constexpr (MODE == 0) return a.insert_equal(h, e); else if constexpr (MODE == 2) return a.insert(h, e); else return It(); }
  template <class CC, class I> void insR(CC& a, I b, I e, bool u) { if constexpr (MODE == 0) { if (u) a.insert_unique(b, e); else a.insert_equal(b, e); } else a.insert(b, e); }
  template <class CC> std::pair<It, bool> insU(CC& a, E& e) { if constexpr (MODE == 0) return a.insert_unique(e); else if constexpr (MODE == 1) return a.insert(e); else return std::pair<It, bool>(); }
  template <class CC> It insU(CC& a, CIt h, E& e) { if constexpr (MODE == 0) return a.insert_unique(h, e); else if constexpr (MODE == 1) return a.insert(h, e); else return It(); }
  void expectRoot(int k, bool ok, const char* what) { if (KIND == 4) CHK("C09", ok, std::string(what) + ": element at the root is " + (m[k].empty() ? "none" : S(c[k]->root()->id))); }
  // splay: root after searching key_: an equivalent element, or a neighbour of the search position
  void rootNear(int k, int key_) { if (KIND != 4 || m[k].empty()) return; int r = c[k]->root()->id; int l = lb(k, key_), u = ub(k, key_); bool ok = false; if (l != u) { for (int i = l; i < u; ++i) ok |= m[k][i] == r; } else ok = (l > 0 && m[k][l - 1] == r) || (l < (int)m[k].size() && m[k][l] == r); expectRoot(k, ok, "splayed search"); }
  void step() {
    int k = rng.below(2), o = 1 - k; C &a = *c[k], &b = *c[o]; V &A = m[k], &B = m[o]; std::string n = k ? "B" : "A"; const char* tg = "";
    poison = rng.below(2); bad_dispose = false; disposed.clear(); cloned.clear(); bool threw = false;
    auto chkit = [&](CIt it, int pos, const char* what, const char* tags = "C05 C20") { CHK(tags, it == at(k, pos), std::string(what) + " returned index " + S(idx(k, it)) + ", expected " + S(pos)); };
    bool thr = rng.below(5) == 0; auto arm = [&](int r) { vh::fuse = thr ? (long)rng.below(r) : -1; };
    int w0 = rng.below(46);
    switch (w0) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: { // single insertions
      int e = anyfree(); int kk = key(e); std::string s0; V A0 = A; arm(12); if (thr) s0 = KIND == 4 ? "" : sig(k); bool hint = rng.flip(); int h = P(k); std::string ops = "C04 C05 C16 C14 "; ops += BT; if (thr) ops += " C17";
      bool u = MODE == 1 || (MODE == 0 && uniq);
      try {
        if (!u) { vh::op(ops.c_str(), n + ".insert_equal(" + (hint ? S(h) + "," : "") + S(e) + " key " + S(kk) + " prio " + S(pool[e]->prio) + ") throw " + S(vh::fuse)); It r = hint ? insE(a, at(k, h), *pool[e]) : insE(a, *pool[e]); vh::fuse = -1; int p = hint ? hintpos(k, h, kk) : ub(k, kk); A.insert(A.begin() + p, e); chkit(r, p, "insert", "C05 C20 C04"); if (KIND == 4) { int ri = a.root()->id; int rp = std::find(A.begin(), A.end(), ri) - A.begin(); expectRoot(k, ri == e || key(ri) == kk || rp == p - 1 || rp == p + 1, "insert_equal"); } }
        else { bool chk2 = rng.flip(); vh::op(ops.c_str(), n + (chk2 ? ".insert_unique_check/commit(" : ".insert_unique(") + (hint ? S(h) + "," : "") + S(e) + " key " + S(kk) + " prio " + S(pool[e]->prio) + ") throw " + S(vh::fuse));
          bool ex = has(k, kk); int p = lb(k, kk); std::pair<It, bool> r;
          if (!chk2) { if (hint) { r.first = insU(a, at(k, h), *pool[e]); r.second = !ex; } else r = insU(a, *pool[e]); }
          else { CD cd; bool het = rng.flip(); int pr = pool[e]->prio; (void)pr;
#if KIND == 5
            if constexpr (MODE == 0) { if (het) r = hint ? a.insert_unique_check(at(k, h), kk, a.key_comp(), pr, PCmp(), cd) : a.insert_unique_check(kk, a.key_comp(), pr, PCmp(), cd); else r = hint ? a.insert_unique_check(at(k, h), *pool[e], *pool[e], cd) : a.insert_unique_check(*pool[e], *pool[e], cd); }
            else if constexpr (MODE == 1) { if (het) r = hint ? a.insert_check(at(k, h), kk, a.key_comp(), pr, PCmp(), cd) : a.insert_check(kk, a.key_comp(), pr, PCmp(), cd); else r = hint ? a.insert_check(at(k, h), *pool[e], *pool[e], cd) : a.insert_check(*pool[e], *pool[e], cd); }
#else
            if constexpr (MODE == 0) { if (het) r = hint ? a.insert_unique_check(at(k, h), kk, a.key_comp(), cd) : a.insert_unique_check(kk, a.key_comp(), cd); else r = hint ? a.insert_unique_check(at(k, h), *pool[e], cd) : a.insert_unique_check(*pool[e], cd); }
            else if constexpr (MODE == 1) { if (het) r = hint ? a.insert_check(at(k, h), kk, a.key_comp(), cd) : a.insert_check(kk, a.key_comp(), cd); else r = hint ? a.insert_check(at(k, h), *pool[e], cd) : a.insert_check(*pool[e], cd); }
#endif
            CHK("C05", r.second == !ex, "insert_check answered " + S(r.second)); vh::fuse = -1;
            if (r.second) { if constexpr (MODE == 0) r.first = a.insert_unique_commit(*pool[e], cd); else if constexpr (MODE == 1) r.first = a.insert_commit(*pool[e], cd); } }
          vh::fuse = -1; CHK("C05", r.second == !ex, "insert_unique answered " + S(r.second)); if (!ex) A.insert(A.begin() + p, e); else { CHK("C05 C20", r.first != It(a.end()) && key(r.first->id) == kk, "insert_unique does not report the equivalent element"); int q = std::find(A.begin(), A.end(), r.first->id) - A.begin(); (void)q; }
          if (!ex) { chkit(r.first, p, "insert_unique", "C05 C20 C04"); { int rp = std::find(A.begin(), A.end(), a.root()->id) - A.begin(); expectRoot(k, rp >= p - 1 && rp <= p + 1, "insert_unique"); } } }
      } catch (vh::Boom&) { vh::fuse = -1; tg = "C17"; A = A0; if (KIND != 4) CHK("C17", sig(k) == s0, "insertion that threw changed the tree"); }
      break; }
    case 8: case 9: { V f = someFree(rng.below(4) ? 6 : 40); bool u = MODE == 1 || (MODE == 0 && uniq); auto q = ptrs(f); vh::op("C04 C05 C16 C14", n + ".insert range(" + vh::seq(f) + ")"); thr = thr && !f.empty(); arm(12);
      V A0 = A, in; try { insR(a, PIt{q.data()}, PIt{q.data() + q.size()}, u); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
      if (threw) { tg = "C17"; V got; for (CIt i = a.cbegin(); i != a.cend() && got.size() <= pool.size(); ++i) got.push_back(i->id); size_t nin = 0; for (int x : f) nin += std::find(got.begin(), got.end(), x) != got.end(); V exp = A; size_t done = 0; for (int x : f) { if (done == nin && !(u && has(k, key(x)))) break; if (u) { if (!has(k, key(x))) { A.insert(A.begin() + lb(k, key(x)), x); ++done; } } else { A.insert(A.begin() + hintpos(k, A.size(), key(x)), x); ++done; } } CHK("C17", got == A, "range insertion that threw left " + vh::seq(got) + ", expected the elements inserted so far " + vh::seq(A)); }
      else for (int x : f) { if (u) { if (!has(k, key(x))) A.insert(A.begin() + lb(k, key(x)), x); } else A.insert(A.begin() + hintpos(k, A.size(), key(x)), x); }
      break; }
    case 10: case 11: { // positional
      int e = anyfree(), kk = key(e), l = lb(k, kk), u = ub(k, kk); if (uniq && MODE != 2 && l != u) break; int p = l + rng.below(u - l + 1); int w = rng.below(3); if (w == 1) { if (u != (int)A.size()) w = 0; else p = u; } if (w == 2) { if (l != 0) w = 0; else p = 0; }
      vh::op("C04 C05 C16 C14", n + (w == 0 ? ".insert_before(" + S(p) + "," : w == 1 ? ".push_back(" : ".push_front(") + S(e) + " key " + S(kk) + " prio " + S(pool[e]->prio) + ")"); std::string s0 = sig(k); if (KIND == 5) arm(5); try { if (w == 0) { It r = a.insert_before(at(k, p), *pool[e]); vh::fuse = -1; A.insert(A.begin() + p, e); chkit(r, p, "insert_before", "C05 C20 C04"); } else { if (w == 1) a.push_back(*pool[e]); else a.push_front(*pool[e]); A.insert(A.begin() + p, e); } } catch (vh::Boom&) { threw = true; } vh::fuse = -1; if (threw) { tg = "C17"; CHK("C17", sig(k) == s0, "positional insertion that threw changed the tree"); break; }
      expectRoot(k, a.root()->id == e, "positional insertion"); break; }
    case 12: case 13: case 14: case 15: if (!A.empty()) { int p = rng.below(A.size()), e = A[p]; int w = rng.below(3); vh::op(w ? "C04 C16 C14 C19 C20" : "C04 C16 C14 C20", n + (w ? ".erase_and_dispose(" : ".erase(") + S(p) + ")"); int pred = -1; if (KIND == 4) { if (NT::get_left(np(*pool[e]))) pred = A[p - 1]; }
      It r; std::string s0 = sig(k); if (KIND == 5) arm(4); try { r = w == 0 ? a.erase(at(k, p)) : w == 1 ? a.erase_and_dispose(at(k, p), Disp{this}) : a.erase_and_dispose(at(k, p).unconst(), Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1; if (threw) { tg = "C17"; CHK("C17 C19", disposed.empty()); CHK("C17", sig(k) == s0, "erasure that threw changed the tree"); break; } A.erase(A.begin() + p); shrunk(k); if (w) dchk(V(1, e)); else relink(V(1, e)); chkit(r, p, "erase", "C20 C04"); if (pred >= 0) expectRoot(k, a.root()->id == pred, "erase"); } break;
    case 16: { int p = P(k), q = P(k); if (rng.flip()) { q = std::min<int>(p + 3, A.size()); } if (p > q) std::swap(p, q); V x(A.begin() + p, A.begin() + q); int w = rng.flip(); vh::op(w ? "C04 C16 C14 C19 C20" : "C04 C16 C14 C20", n + ".erase range(" + S(p) + "," + S(q) + ") variant " + S(w)); It r = w ? a.erase_and_dispose(at(k, p), at(k, q), Disp{this}) : a.erase(at(k, p), at(k, q)); for (int i = p; i < q; ++i) { A.erase(A.begin() + p); shrunk(k); } if (w) dchk(x); else relink(x); chkit(r, p, "erase range", "C20 C04"); break; }
    case 17: case 18: { int kk = rng.below(nkey), l = lb(k, kk), u = ub(k, kk); V x(A.begin() + l, A.begin() + u); int w = rng.below(4); arm(14); E ke; ke.key = kk; ke.id = -1; size_t r = 0; std::string s0 = sig(k); vh::op("C04 C05 C16 C14 C19", n + ".erase(key " + S(kk) + ") variant " + S(w) + " throw " + S(vh::fuse));
      try { r = w == 0 ? a.erase(ke) : w == 1 ? a.erase(kk, a.key_comp()) : w == 2 ? a.erase_and_dispose(ke, Disp{this}) : a.erase_and_dispose(kk, a.key_comp(), Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
      if (threw && KIND == 5) { tg = "C17"; std::set<int> left; for (CIt i = a.cbegin(); i != a.cend(); ++i) left.insert(i->id); V gone; while (l < (int)A.size() && !left.count(A[l])) { gone.push_back(A[l]); A.erase(A.begin() + l); } CHK("C17", gone.size() <= x.size()); if (w >= 2) dchk(gone); else relink(gone); }
      else if (threw) { tg = "C17"; CHK("C17", disposed.empty()); if (KIND != 4) CHK("C17", sig(k) == s0); } else { for (int i : x) { (void)i; A.erase(A.begin() + l); shrunk(k); } CHK("C05 C19", r == x.size(), "erase(key) returned " + S(r) + ", expected " + S(x.size())); if (w >= 2) dchk(x); else relink(x); } break; }
    case 19: { if (rng.below(5)) break; V old = A; if (rng.flip()) { vh::op("C04 C16 C14", n + ".clear()"); a.clear(); A.clear(); relink(old); } else { vh::op("C04 C16 C14 C19", n + ".clear_and_dispose()"); a.clear_and_dispose(Disp{this}); A.clear(); dchkset(old); } mx[k] = 0; break; }
    case 20: case 21: { // clone
      if (pool.size() > 150) break; V old = A; bool mv = rng.flip(); thr = rng.flip(); arm(B.size() + 1); size_t p0 = pool.size(); std::string s0 = sig(o); vh::op("C04 C16 C14 C17 C18 C19", n + ".clone_from(" + (mv ? "move" : "copy") + ") throw " + S(vh::fuse)); bool r0 = rev(o);
      try { if (mv) a.clone_from(std::move(b), CloneM{this}, Disp{this}); else a.clone_from((const C&)b, Clone{this}, Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
      CHK("C18", sig(o) == s0, "clone_from changed its source"); V nw; for (size_t i = p0; i < pool.size(); ++i) nw.push_back(i); mx[k] = threw ? 0 : std::max(mx[o], B.size());
      { V cl = cloned, bb = B; std::sort(cl.begin(), cl.end()); std::sort(bb.begin(), bb.end()); if (!threw) CHK("C18", cl == bb, "cloned " + vh::seq(cloned)); else CHK("C18", std::adjacent_find(cl.begin(), cl.end()) == cl.end(), "element cloned twice"); }
      if (threw) { tg = "C17 C18"; A.clear(); V exp = old; exp.insert(exp.end(), nw.begin(), nw.end()); dchkset(exp, "C17 C18 C19"); relink(exp); }
      else { tg = "C18"; std::map<int, int> of; for (size_t i = 0; i < cloned.size(); ++i) of[cloned[i]] = p0 + i; A.clear(); for (int i : B) A.push_back(of[i]); dchkset(old, "C18 C19"); if (!B.empty()) CHK("C18", rev(k) == r0, "comparator not copied"); }
      break; }
    case 22: { tg = "C21"; bool ra = rev(k), rb = rev(o); vh::op("C04 C16 C14 C21", "swap"); if (rng.flip()) a.swap(b); else swap(a, b); A.swap(B); std::swap(mx[0], mx[1]); CHK("C21", rev(k) == rb && rev(o) == ra, "comparators not exchanged"); break; }
    case 23: { tg = "C21"; int w = rng.flip(); V old = A; vh::op("C04 C16 C14 C21", w ? n + " = move(other)" : n + " move constructed away and back"); bool ra = rev(k), rb = rev(o);
      if (w) { a = std::move(b); A = B; B.clear(); V gb; for (CIt i = b.cbegin(); i != b.cend() && gb.size() < 999; ++i) gb.push_back(i->id); if (!old.empty() && gb == old) B = old; else relink(old); CHK("C21", rev(k) == rb, "comparator not moved"); std::swap(mx[0], mx[1]); }
      else { typename std::aligned_storage<sizeof(C), alignof(C)>::type tmp; C* t = new (&tmp) C(std::move(a)); V g; for (CIt i = t->cbegin(); i != t->cend() && g.size() < 999; ++i) g.push_back(i->id); CHK("C21", g == A, "move constructed " + vh::seq(g)); CHK("C21 C16", t->size() == A.size()); CHK("C21", t->key_comp().rev == ra); CHK("C21", a.empty() && a.begin() == a.end()); CHK("C21 C16", a.size() == 0);
        if (rng.flip()) { int e = anyfree(); if constexpr (MODE == 1) a.insert(*pool[e]); else if constexpr (MODE == 2) a.insert(*pool[e]); else a.insert_equal(*pool[e]); CHK("C21", a.size() == 1 && &*a.begin() == pool[e], "moved-from container unusable"); a.clear(); relink(V(1, e)); }
        a.~C(); memset((void*)&st[k], 0xEE, sizeof(C)); c[k] = new (&st[k]) C(std::move(*t)); CHK("C21", t->empty() && t->size() == 0); t->~C(); memset((void*)&tmp, 0xEE, sizeof tmp); CHK("C21", rev(k) == ra); }
      break; }
    case 24: case 25: { // merge
      bool u = MODE == 1 || (MODE == 0 && uniq); tg = "C22"; arm(20); vh::op(thr ? "C04 C16 C14 C17 C22" : "C04 C16 C14 C22", n + (u ? ".merge_unique" : ".merge_equal") + "(other) throw " + S(vh::fuse)); V A0 = A, B0 = B;
      try { if constexpr (MODE == 0) { if (u) a.merge_unique(b); else a.merge_equal(b); } else a.merge(b); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
      V src = B, keep; size_t i = 0; size_t stop = src.size();
      if (threw) { tg = "C17 C22"; std::set<int> in; size_t cnt = 0; for (CIt x = b.cbegin(); x != b.cend() && cnt <= pool.size(); ++x, ++cnt) in.insert(x->id); for (CIt x = a.cbegin(); x != a.cend() && cnt <= 2 * pool.size(); ++x, ++cnt) if (in.count(x->id)) CHK("C17", false, "element in both containers"); stop = src.size(); while (stop > 0 && in.count(src[stop - 1])) --stop; }
      for (; i < src.size(); ++i) { int x = src[i]; if (i >= stop || (u && has(k, key(x)))) { keep.push_back(x); continue; } int p = u ? lb(k, key(x)) : ub(k, key(x)); A.insert(A.begin() + p, x); bumpmax(); B.erase(std::find(B.begin(), B.end(), x)); shrunk(o); }
      B = keep; break; }
    case 26: case 27: case 28: case 29: case 30: { // lookups
      int kk = (int)rng.below(nkey + 2) - 1, k2 = (int)rng.below(nkey + 2) - 1; int l = lb(k, kk), u = ub(k, kk); bool con = rng.flip(), het = rng.flip(); int w = rng.below(6); if (KIND == 4 && MODE == 1 && w == 4) con = true; /* splay_set::count is const */ arm(8); std::string s0 = sig(k); const C& ca = a; E ke, ke2; ke.key = kk; ke.id = -1; Cmp cmp = a.key_comp();
      static const char* nm[] = {"find", "lower_bound", "upper_bound", "equal_range", "count", "bounded_range", "lower_bound_range"}; vh::op(thr ? "C04 C05 C17" : "C04 C05", n + "." + nm[w] + "(key " + S(kk) + "," + S(k2) + ") const " + S(con) + " throw " + S(vh::fuse));
      try {
        if (w == 0) { CIt r = con ? (het ? ca.find(kk, cmp) : ca.find(ke)) : CIt(het ? a.find(kk, cmp) : a.find(ke)); int p = idx(k, r); if (l == u) CHK("C05", p == (int)A.size(), "find of an absent key returned index " + S(p)); else CHK("C05", p >= l && p < u, "find returned index " + S(p)); }
        if (w == 1) chkit(con ? (het ? ca.lower_bound(kk, cmp) : ca.lower_bound(ke)) : CIt(het ? a.lower_bound(kk, cmp) : a.lower_bound(ke)), l, "lower_bound", "C05");
        if (w == 2) chkit(con ? (het ? ca.upper_bound(kk, cmp) : ca.upper_bound(ke)) : CIt(het ? a.upper_bound(kk, cmp) : a.upper_bound(ke)), u, "upper_bound", "C05");
        if (w == 3) { CIt x, y; if (con) { auto p = het ? ca.equal_range(kk, cmp) : ca.equal_range(ke); x = p.first; y = p.second; } else { auto p = het ? a.equal_range(kk, cmp) : a.equal_range(ke); x = p.first; y = p.second; } chkit(x, l, "equal_range.first", "C05"); chkit(y, u, "equal_range.second", "C05"); }
        if (w == 4) { size_t r = con ? (het ? ca.count(kk, cmp) : ca.count(ke)) : (het ? a.count(kk, cmp) : a.count(ke)); CHK("C05", r == size_t(u - l), "count returned " + S(r)); }
        if (w == 5) { bool lc = rng.flip(), rc = rng.flip(); if (lt(k, k2, kk)) std::swap(kk, k2); if (kk == k2 && !lc && !rc) lc = true; ke.key = kk; ke2.key = k2; int x = lc ? lb(k, kk) : ub(k, kk), y = rc ? ub(k, k2) : lb(k, k2); CIt i, j; if (con) { auto p = het ? ca.bounded_range(kk, k2, cmp, lc, rc) : ca.bounded_range(ke, ke2, lc, rc); i = p.first; j = p.second; } else { auto p = het ? a.bounded_range(kk, k2, cmp, lc, rc) : a.bounded_range(ke, ke2, lc, rc); i = p.first; j = p.second; } if (x > y) x = y; chkit(i, x, "bounded_range.first", "C05"); chkit(j, y, "bounded_range.second", "C05"); }
        vh::fuse = -1; if (con || KIND != 4) CHK("C05 C09 C04", sig(k) == s0, "lookup changed the tree"); else rootNear(k, kk);
      } catch (vh::Boom&) { vh::fuse = -1; tg = "C17"; if (con || KIND != 4) CHK("C17", sig(k) == s0, "lookup that threw changed the tree"); }
      break; }
    case 31: case 32: if (!A.empty()) { // replace
      int p = rng.below(A.size()), old = A[p], e = anyfree(); tg = "C23"; vh::op("C23 C04 C14", n + ".replace_node(" + S(p) + "," + S(e) + ")"); pool[e]->key = key(old); pool[e]->prio = pool[old]->prio; a.replace_node(C::s_iterator_to(*pool[old]), *pool[e]); A[p] = e; relink(V(1, old)); } break;
    case 33: case 34: { // swap_nodes at algorithm level
      V all = A; all.insert(all.end(), B.begin(), B.end()); if (all.size() < 2) break; int x = all[rng.below(all.size())], y = all[rng.below(all.size())]; if (rng.below(3) == 0 && A.size() > 1) { int i = rng.below(A.size() - 1); x = A[i]; y = A[i + 1]; if (rng.flip()) std::swap(x, y); } if (x == y) break;
      tg = "C23"; vh::op("C23 C04", "swap_nodes(" + S(x) + "," + S(y) + ")"); if (rng.flip()) NA::swap_nodes(np(*pool[x]), np(*pool[y])); else NA::swap_nodes(np(*pool[x]), c[where[x]]->end().pointed_node(), np(*pool[y]), c[where[y]]->end().pointed_node());
      for (int q = 0; q < 2; ++q) for (int& i : m[q]) { if (i == x) i = y; else if (i == y) i = x; } std::swap(pool[x]->key, pool[y]->key); std::swap(pool[x]->prio, pool[y]->prio); break; }
    case 35: { if (rng.below(5)) break; vh::op("C04 C16 C14", n + " drained with unlink_leftmost_without_rebalance"); V old = A; V got; while (E* e = a.unlink_leftmost_without_rebalance()) { got.push_back(e->id); CHK("C04 C14", got.size() <= old.size(), "unlink_leftmost returned too many elements"); if (K::track) CHK("C14", !e->linked()); if (K::ct) CHK("C16", a.size() == old.size() - got.size()); } CHK("C04", got == old, "unlink_leftmost order " + vh::seq(got)); A.clear(); relink(old); bool r = rev(k); CHK("C16", a.size() == 0 && a.empty()); a.~C(); c[k] = new (&st[k]) C(Cmp(r)); mx[k] = 0; break; }
    case 36: case 37: { if constexpr (!K::ct && KIND != 3) { int i = pool.empty() ? -1 : (int)rng.below(pool.size()); if (i < 0) break; tg = "C14"; if (K::autou && rng.flip()) { bool dst = rng.flip(); vh::op("C14 C04", std::string(dst ? "destroy" : "unlink") + " element " + S(i)); int q = key(i), r = pool[i]->prio; if (KIND == 5) heapok = false; /* known finding, see finding_treap_auto */ if (dst) { pool[i]->~E(); remake(i, q, r); } else pool[i]->unl(); }
#if KIND != 5
        else { if (where[i] < 0) break; vh::op("C14 C04", "remove_node " + S(i)); C::remove_node(*pool[i]); relink(V(1, i)); }
#else
        else break;
#endif
        for (int q = 0; q < 2; ++q) m[q].erase(std::remove(m[q].begin(), m[q].end(), i), m[q].end()); } break; }
#if KIND == 4
    case 38: case 39: { tg = "C09"; if (rng.flip()) { int p = P(k); vh::op("C09 C04", n + ".splay_up(" + S(p) + ")"); a.splay_up(at(k, p).unconst()); if (!A.empty()) expectRoot(k, a.root()->id == A[p == (int)A.size() ? p - 1 : p], "splay_up"); }
      else { int kk = (int)rng.below(nkey + 2) - 1; arm(6); vh::op(thr ? "C09 C04 C17" : "C09 C04", n + ".splay_down(key " + S(kk) + ") throw " + S(vh::fuse)); E ke; ke.key = kk; try { It r = rng.flip() ? a.splay_down(kk, a.key_comp()) : a.splay_down(ke); vh::fuse = -1; CHK("C09", r == (A.empty() ? a.end() : a.root()), "splay_down does not return the root"); rootNear(k, kk); } catch (vh::Boom&) { vh::fuse = -1; tg = "C17 C09"; } } break; }
#endif
#if KIND == 0 || KIND == 3 || KIND == 4
    case 40: case 41: { tg = "C10"; if (rng.flip() || A.empty()) { vh::op("C10 C04", n + ".rebalance()"); a.rebalance(); int hh = height(k), want = 0; while ((1u << want) - 1 < A.size()) ++want; CHK("C10", hh == want, "height after rebalance " + S(hh) + ", minimal " + S(want)); }
      else { int e = A[rng.below(A.size())]; vh::op("C10 C04", n + ".rebalance_subtree(" + S(e) + ")"); auto cnt = [&](NP x) { V o2; std::string s2; tS = "C10 C04"; tB = BT; return std::make_pair(x, visit(x, NT::get_parent(x), o2, s2).height * 10000 + (int)o2.size()); }; int sz = cnt(np(*pool[e])).second % 10000; It r = a.rebalance_subtree(C::s_iterator_to(*pool[e])); CHK("C10", r != a.end()); auto q = cnt(r.pointed_node()); int want = 0; while ((1 << want) - 1 < sz) ++want; CHK("C10", q.second % 10000 == sz, "rebalance_subtree: subtree of " + S(q.second % 10000) + " elements, expected " + S(sz)); CHK("C10", q.second / 10000 == want, "height after rebalance_subtree " + S(q.second / 10000) + ", minimal " + S(want)); } break; }
#endif
    case 42: { vh::op("C04", "compare"); if constexpr (MODE != 0) { }
      break; }
    case 43: case 44: case 45: { // monotone bursts make deep trees
      if (pool.size() > 120 || rng.below(4)) break; bool up = rng.flip(); int cnt = rng.below(40); vh::op("C04 C05 C16", n + " burst of " + S(cnt) + (up ? " ascending" : " descending") + " insertions"); int base = nkey; for (int i = 0; i < cnt; ++i) { int kk = up ? base + i : -1 - (int)pool.size(); if (has(k, kk)) continue; int e = add(kk, rng.below(10)); if (MODE == 1) insU(a, *pool[e]); else insE(a, *pool[e]); A.insert(A.begin() + ub(k, kk), e); bumpmax(); } if (rng.flip()) { while (A.size() > 2 && rng.below(12)) { int p = rng.below(A.size()); int e = A[p]; a.erase(at(k, p)); relink(V(1, e)); A.erase(A.begin() + p); shrunk(k); } } break; }
    }
    chk(tg);
  }
  void end() { vh::op("C14", "destroy containers"); for (int k = 0; k < 2; ++k) { if (!K::track) c[k]->clear(); c[k]->~C(); m[k].clear(); } if (K::track) for (size_t i = 0; i < pool.size(); ++i) CHK("C14", !pool[i]->linked(), "element " + S(i) + " still linked after its container was destroyed"); for (auto e : pool) { e->~E(); ::operator delete((void*)e); } }
};
template <class K> void runs(const char* name, int n) {
  if (vh::thorough) n *= 40;
  for (int i = 0; i < n && !vh::time_up(); ++i) {
    uint64_t s = vh::mix(vh::seed, i * 131 + std::hash<std::string>()(name) + KIND);
    vh::history(std::string(name) + " kind " + S(KIND) + " #" + S(i), [&] { World<K>* w = new World<K>(s); vh::fuse = -1; w->setw(); int len = 1 + w->rng.below(i % 4 ? 16 : 80); w->chk(""); for (int j = 0; j < len; ++j) w->step(); w->end(); delete w; });
  }
}
typedef bi::link_mode<bi::safe_link> SL; typedef bi::link_mode<bi::normal_link> NL; typedef bi::link_mode<bi::auto_unlink> AL;
template <bool B> using CT = bi::constant_time_size<B>;
#if KIND == 1
template <class... O> using BH = bi::set_base_hook<O...>; template <class... O> using MHk = bi::set_member_hook<O...>;
template <class T, class... O> using Tree = bi::rbtree<T, bi::compare<Cmp>, O...>; template <class T, class... O> using Set = bi::set<T, bi::compare<Cmp>, O...>; template <class T, class... O> using MSet = bi::multiset<T, bi::compare<Cmp>, O...>;
#elif KIND == 2
template <class... O> using BH = bi::avl_set_base_hook<O...>; template <class... O> using MHk = bi::avl_set_member_hook<O...>;
template <class T, class... O> using Tree = bi::avltree<T, bi::compare<Cmp>, O...>; template <class T, class... O> using Set = bi::avl_set<T, bi::compare<Cmp>, O...>; template <class T, class... O> using MSet = bi::avl_multiset<T, bi::compare<Cmp>, O...>;
#else
template <class... O> using BH = bi::bs_set_base_hook<O...>; template <class... O> using MHk = bi::bs_set_member_hook<O...>;
#if KIND == 0
template <class T, class... O> using Tree = bi::bstree<T, bi::compare<Cmp>, O...>; template <class T, class... O> using Set = bi::bs_set<T, bi::compare<Cmp>, O...>; template <class T, class... O> using MSet = bi::bs_multiset<T, bi::compare<Cmp>, O...>;
#elif KIND == 3
template <class T, class... O> using Tree = bi::sgtree<T, bi::compare<Cmp>, O...>; template <class T, class... O> using Set = bi::sg_set<T, bi::compare<Cmp>, O...>; template <class T, class... O> using MSet = bi::sg_multiset<T, bi::compare<Cmp>, O...>;
#elif KIND == 4
template <class T, class... O> using Tree = bi::splaytree<T, bi::compare<Cmp>, O...>; template <class T, class... O> using Set = bi::splay_set<T, bi::compare<Cmp>, O...>; template <class T, class... O> using MSet = bi::splay_multiset<T, bi::compare<Cmp>, O...>;
#elif KIND == 5
template <class T, class... O> using Tree = bi::treap<T, bi::compare<Cmp>, bi::priority<PCmp>, O...>; template <class T, class... O> using Set = bi::treap_set<T, bi::compare<Cmp>, bi::priority<PCmp>, O...>; template <class T, class... O> using MSet = bi::treap_multiset<T, bi::compare<Cmp>, bi::priority<PCmp>, O...>;
#endif
#endif
template <class E, class H> using MH = bi::member_hook<E, H, &E::hk>;
typedef BaseE<BH<SL>> EB; typedef BaseE<BH<NL>> EN; typedef BaseE<BH<AL>> EA; typedef MemE<MHk<SL>> EM; typedef MemE<MHk<AL>> EMA; typedef BaseE<bi::any_base_hook<>> EY;
#if KIND == 5 && (PART < 0 || PART == 0)
// known finding: hook.unlink() / hook destruction of a treap element with two children does not restore heap order
void finding_treap_auto() {
  if (vh::only_case.empty() || vh::prop != "C08") return;
  vh::history("finding treap auto_unlink", [] {
    typedef Tree<EMA, MH<EMA, MHk<AL>>, CT<false>> T; T t; EMA e[5]; int ks[] = {50, 30, 70, 60, 80}, ps[] = {0, 1, 2, 5, 3};
    for (int i = 0; i < 5; ++i) { e[i].key = ks[i]; e[i].prio = ps[i]; e[i].id = i; t.insert_equal(e[i]); }
    vh::op("C08", "treap with auto_unlink hooks, keys [50 30 70 60 80] priorities [0 1 2 5 3]; e[0].unlink()"); e[0].unl();
    bool ok = true; for (T::iterator i = t.begin(); i != t.end(); ++i) { typedef T::node_traits N; auto n = i.pointed_node(); if (N::get_left(n)) ok &= T::value_traits::to_value_ptr(N::get_left(n))->prio >= i->prio; if (N::get_right(n)) ok &= T::value_traits::to_value_ptr(N::get_right(n))->prio >= i->prio; }
    CHK("C08", ok, "heap order after hook.unlink()"); t.clear(); });
}
#endif
#if KIND == 3 && (PART < 0 || PART == 0)
// insertions only: the height stays within the bound for the current size (no slack for deletions)
struct SG : bi::bs_set_base_hook<> { int k; SG() : k(0) {} friend bool operator<(const SG& a, const SG& b) { return a.k < b.k; } };
template <class Q> auto setbf_(Q& s, float al, bool st, std::true_type) -> void { if (st) s.balance_factor(al); }
template <class Q> void setbf_(Q&, float, bool, std::false_type) {}
struct SGI; template <class Q> void setbf(Q& s, float al, bool st) { setbf_(s, al, st, std::is_same<Q, bi::sg_multiset<SG> >()); }
template <class Q> int sgh(Q& s) { int m = 0; typedef typename Q::node_traits N; auto h = s.end().pointed_node(); for (auto i = s.begin(); i != s.end(); ++i) { int d = 0; for (auto n = i.pointed_node(); N::get_parent(n) != h; n = N::get_parent(n)) ++d; m = std::max(m, d); } return m; }
template <class Q> void sg_strict(float al, bool setal, const char* nm) {
  const int N = vh::thorough ? 600 : 150; double A = setal ? al : std::sqrt(0.5);
  for (int mode = 0; mode < 8; ++mode) for (int sd = 0; sd < (mode < 3 || mode > 5 ? 1 : 8); ++sd) vh::history(std::string("scapegoat insertions only ") + nm, [&] {
    vh::op("C10", "alpha " + std::to_string(A) + " insertion pattern " + S(mode) + "/" + S(sd)); Q s; setbf(s, al, setal); std::vector<SG> v(N); vh::Rng r(vh::seed * 100 + sd);
    for (int i = 0; i < N; ++i) { v[i].k = mode == 0 ? i : mode == 1 ? -i : mode == 2 ? (i & 1 ? i : -i) : mode == 3 ? r.below(1000) : mode == 4 ? (i * 7) % 31 : mode == 5 ? (r.below(4) ? i : -i) : mode == 6 ? (i & 1 ? 1000 - i : i) : (i < N / 2 ? i : N - 2 * i);
      s.insert(v[i]); int h = sgh(s); double b = std::floor(std::log2(i + 1.0) / -std::log2(A) + 0.05); CHK("C10", h <= b, "height " + S(h) + " after insertion " + S(i + 1) + ", bound " + S((long long)b)); vh::note_state(vh::mix(mode * 100 + h, i)); }
    s.clear(); });
}
#endif
int main(int argc, char** argv) {
  vh::init(argc, argv);
#if KIND == 3 && (PART < 0 || PART == 0)
  { typedef bi::sg_multiset<SG> F; typedef bi::sg_multiset<SG, bi::floating_point<false>> I; sg_strict<F>(0.55f, true, "0.55"); sg_strict<F>(0.6f, true, "0.6"); sg_strict<F>(0.70711f, true, "0.70711"); sg_strict<F>(0, false, "default"); sg_strict<I>(0, false, "fixed"); }
#endif
  int n = 3000; (void)n;
#if KIND == 5 && (PART < 0 || PART == 0)
  finding_treap_auto();
#endif
#if PART < 0 || PART == 0
  runs<Cfg<Tree<EB>, EB, 0, 1, 0, 1>>("tree base safe ct", 2 * n);
#if KIND != 3
  runs<Cfg<Tree<EMA, MH<EMA, MHk<AL>>, CT<false>>, EMA, 0, 1, 1, 0>>("tree member auto", 2 * n);
#endif
#endif
#if PART < 0 || PART == 1
  runs<Cfg<Set<EM, MH<EM, MHk<SL>>>, EM, 1, 1, 0, 1>>("set member safe ct", n);
  runs<Cfg<MSet<EN, CT<KIND == 3>>, EN, 2, 0, 0, KIND == 3>>("multiset base normal", n);
#endif
#if PART < 0 || PART == 2
#if KIND == 1 || KIND == 2
  typedef BaseE<BH<SL, bi::optimize_size<true>>> EO; runs<Cfg<Tree<EO, CT<false>>, EO, 0, 1, 0, 0>>("tree optimize_size", n);
#elif KIND == 3
  runs<Cfg<Tree<EB, bi::floating_point<false>>, EB, 0, 1, 0, 1>>("tree fixed alpha", n);
#endif
#if KIND == 1
  runs<Cfg<MSet<EY, bi::any_to_set_hook<bi::base_hook<bi::any_base_hook<>>>>, EY, 2, 1, 0, 1>>("multiset any", n);
#elif KIND == 2
  runs<Cfg<MSet<EY, bi::any_to_avl_set_hook<bi::base_hook<bi::any_base_hook<>>>>, EY, 2, 1, 0, 1>>("multiset any", n);
#else
  runs<Cfg<MSet<EY, bi::any_to_bs_set_hook<bi::base_hook<bi::any_base_hook<>>>>, EY, 2, 1, 0, 1>>("multiset any", n);
#endif
#endif
  return vh::done();
}

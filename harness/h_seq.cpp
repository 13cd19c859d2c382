// list / slist containers against a plain sequence model.  C03 C14 C16 C17 C18 C19 C20 C21
#include "vh.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
namespace bi = boost::intrusive;
typedef std::vector<int> V;
struct Cmn { int id, val; };
inline bool operator==(const Cmn& a, const Cmn& b) { vh::tick(); return a.val == b.val; }
inline bool operator<(const Cmn& a, const Cmn& b) { vh::tick(); return a.val < b.val; }
struct Less { template <class T> bool operator()(const T& a, const T& b) const { vh::tick(); return a.val < b.val; } };
struct Eq { template <class T> bool operator()(const T& a, const T& b) const { vh::tick(); return a.val == b.val; } };
struct PrimeEq { template <class T> bool operator()(const T& a, const T& b) const { vh::tick(); return a.val % 2 == b.val % 2; } };
// ---- element types
template <class Hook> struct BaseE : Cmn, Hook { bool linked() const { if constexpr (Hook::hooktags::safemode_or_autounlink) return Hook::is_linked(); else return false; } };
struct Junk { virtual ~Junk() {} long a[3]; };
template <class Hook> struct MemE : Junk, Cmn { char pad[5]; Hook hk; char pad2[3]; bool linked() const { return hk.is_linked(); } };
struct NodeL { NodeL *next_, *prev_; };
struct DerivE : Cmn, bi::list_node<void*> { bool linked() const { return false; } };
struct DerivSE : Cmn, bi::slist_node<void*> { bool linked() const { return false; } };
template <class E> void unl(E& e, std::true_type) { e.unlink(); }
template <class H> void unl(MemE<H>& e, std::true_type) { e.hk.unlink(); }
template <class E> void unl(E&, std::false_type) {}
// kinds of configuration
template <class C, class El, bool Track_, bool Auto_, bool CT, bool IsS, bool Lin, bool CL> struct Cfg { typedef C cont; typedef El E; static const bool track = Track_, autou = Auto_, ct = CT, isS = IsS, lin = Lin, cl = CL; };
template <class C, class = void> struct has_pb : std::false_type {};

template <class K> struct World {
  typedef typename K::cont C; typedef typename K::E E; typedef typename C::iterator It; typedef typename C::const_iterator CIt;
  static const bool S_ = K::isS;
  typename std::aligned_storage<sizeof(C), alignof(C)>::type st[2];
  C* c[2]; V m[2]; std::vector<E*> pool; std::vector<int> where; vh::Rng rng; int nval; V disposed; bool poison; bool bad_dispose; std::vector<int> cloned;
  World(uint64_t s) : rng(s), poison(false), bad_dispose(false) { for (int i = 0; i < 2; ++i) c[i] = new (&st[i]) C(); nval = 1 + rng.below(4); int k = rng.below(3) ? rng.below(8) : rng.below(40); for (int i = 0; i < k; ++i) add(rng.below(nval)); }
  int add(int val) { void* p = ::operator new(sizeof(E)); memset(p, 0x5a, sizeof(E)); E* e = new (p) E(); e->id = pool.size(); e->val = val; pool.push_back(e); where.push_back(-1); return e->id; }
  void remake(int id) { int v = pool[id]->val; remake(id, v); }
  void remake(int id, int v) { E* e = pool[id]; memset((void*)e, 0x5a, sizeof(E)); new ((void*)e) E(); e->id = id; e->val = v; }
  V free_() { V f; for (size_t i = 0; i < pool.size(); ++i) if (where[i] < 0) f.push_back(i); return f; }
  int anyfree() { V f = free_(); if (f.empty()) return add(rng.below(nval)); return f[rng.below(f.size())]; }
  void setw() { for (auto& w : where) w = -1; for (int k = 0; k < 2; ++k) for (int i : m[k]) where[i] = k; }
  CIt at(int k, int pos) { CIt it = c[k]->cbegin(); while (pos--) ++it; return it; }
  CIt atb(int k, int pos) { if constexpr (S_) { CIt it = c[k]->cbefore_begin(); while (pos--) ++it; return it; } else return at(k, pos); }
  int idx(int k, CIt it) { int n = 0; for (CIt i = c[k]->cbegin(); ; ++i, ++n) { if (i == it) return n; if (i == c[k]->cend() || n > 5000) return -1; } }
  struct Disp { World* w; void operator()(E* e) { if (K::track && e->linked()) w->bad_dispose = true; w->disposed.push_back(e->id); if (w->poison) { int id = e->id, v = e->val; (void)v; e->~E(); memset((void*)e, 0xFE, sizeof(E)); w->vals[id] = v; w->dead.push_back(id); } } };
  std::map<int, int> vals; V dead;
  void revive() { for (int i : dead) remake(i, vals[i]); dead.clear(); }
  struct Clone { World* w; E* operator()(const E& e) { vh::tick(); w->cloned.push_back(e.id); return w->pool[w->add(e.val)]; } };
  struct CloneM { World* w; E* operator()(E& e) { vh::tick(); w->cloned.push_back(e.id); return w->pool[w->add(e.val)]; } };
  std::string T(const char* x) { return x; }
  void chk(const char* tg) {
    std::string t3 = std::string("C03 ") + tg, t20 = std::string("C20 C03 ") + tg, t16 = std::string("C16 ") + tg, t14 = std::string("C14 ") + tg;
    setw();
    uint64_t h = K::isS * 7 + K::ct * 3 + K::lin * 11 + K::cl * 13;
    for (int k = 0; k < 2; ++k) {
      V got; C& l = *c[k]; const C& cl = l; size_t lim = pool.size() + 2;
      for (CIt i = cl.begin(); i != cl.end() && got.size() < lim; ++i) got.push_back((int)i->id);
      CHK(t3.c_str(), got == m[k], "container " + S(k) + " is " + vh::seq(got) + ", expected " + vh::seq(m[k]));
      for (int x : m[k]) h = vh::mix(h, pool[x]->val + 1); h = vh::mix(h, 99);
      if constexpr (!S_) {
        V r; for (auto i = cl.rbegin(); i != cl.rend() && r.size() < lim; ++i) r.push_back(i->id); V q = m[k]; std::reverse(q.begin(), q.end());
        CHK(t20.c_str(), r == q, "reverse traversal " + vh::seq(r) + ", expected " + vh::seq(q));
        V r2; It i = l.end(); while (i != l.begin() && r2.size() < lim) { It j = i; --i; r2.push_back(i->id); It jj = i; CHK(t20.c_str(), ++jj == j); It j2 = i; j2++; CHK(t20.c_str(), j2 == j); j2--; CHK(t20.c_str(), j2 == i); } CHK(t20.c_str(), r2 == q);
      }
      CHK(t16.c_str(), l.size() == m[k].size(), "size() is " + S(l.size()) + ", elements " + S(m[k].size()));
      CHK(t16.c_str(), l.empty() == m[k].empty());
      if (!m[k].empty()) { CHK(t3.c_str(), l.front().id == m[k].front() && cl.front().id == m[k].front()); if constexpr (!S_ || K::cl) CHK(t3.c_str(), l.back().id == m[k].back() && cl.back().id == m[k].back()); }
      if constexpr (S_ && K::cl) { CHK(t3.c_str(), l.last() == (m[k].empty() ? l.before_begin() : l.iterator_to(*pool[m[k].back()])), "last()"); CHK(t3.c_str(), cl.last() == l.last() && cl.clast() == l.last()); }
      if constexpr (S_) { It b = l.before_begin(); CHK(t20.c_str(), ++b == l.begin()); CHK(t20.c_str(), cl.before_begin() == CIt(l.before_begin()) && cl.cbefore_begin() == CIt(l.before_begin())); for (size_t q = 0; q <= m[k].size(); ++q) { CHK(t20.c_str(), l.previous(at(k, q)) == atb(k, q)); CHK(t20.c_str(), cl.previous(l.cbefore_begin(), at(k, q)) == atb(k, q)); } }
      for (size_t q = 0; q < m[k].size(); ++q) { E& e = *pool[m[k][q]]; CIt a = at(k, q); CHK(t20.c_str(), l.iterator_to(e) == a && cl.iterator_to(e) == a && C::s_iterator_to(e) == a && C::s_iterator_to((const E&)e) == a && &*a == &e, "iterator_to"); }
      if constexpr (!S_ || !K::lin) { CHK(t20.c_str(), &C::container_from_end_iterator(l.end()) == &l && &C::container_from_end_iterator(l.cend()) == &l); }
      { const char* sv = vh::cur_tags; vh::cur_tags = t3.c_str(); l.check(); vh::cur_tags = sv; }
    }
    for (size_t i = 0; i < pool.size(); ++i) if (K::track) { bool in = where[i] >= 0; CHK(t14.c_str(), pool[i]->linked() == in, "element " + S(i) + " is_linked() is " + S(!in)); }
    vh::note_state(h);
  }
  void dchk(const V& exp, const char* more = "") { CHK("C19", disposed == exp, std::string("disposed ") + vh::seq(disposed) + ", expected " + vh::seq(exp)); CHK("C19 C14", !bad_dispose, "element handed to the disposer is still linked"); disposed.clear(); revive(); (void)more; }
  void dchkset(V exp) { V d = disposed; std::sort(d.begin(), d.end()); std::sort(exp.begin(), exp.end()); CHK("C19", d == exp, std::string("disposed ") + vh::seq(disposed)); CHK("C19 C14", !bad_dispose); disposed.clear(); revive(); }
  // after an exception: contents may have been reordered / reduced; read them back
  void resync(bool mayLose, const char* t) {
    std::set<int> before(m[0].begin(), m[0].end()); before.insert(m[1].begin(), m[1].end());
    std::set<int> after;
    for (int k = 0; k < 2; ++k) { V got; for (CIt i = c[k]->cbegin(); i != c[k]->cend(); ++i) { CHK(t, got.size() <= pool.size(), "traversal after exception does not end"); got.push_back(i->id); CHK(t, after.insert(i->id).second, "element twice after exception"); CHK(t, before.count(i->id), "foreign element after exception"); } m[k] = got; }
    if (!mayLose) CHK(t, after == before, "elements lost after exception: " + S(before.size() - after.size()));
    if (mayLose && !K::track) { setw(); for (size_t i = 0; i < pool.size(); ++i) if (where[i] < 0) remake(i); }
  }
  void sortm(int k) { std::stable_sort(m[k].begin(), m[k].end(), [&](int a, int b) { return pool[a]->val < pool[b]->val; }); }
  int P(int k) { return rng.below(m[k].size() + 1); }
  std::vector<E*> ptrs(const V& f) { std::vector<E*> r; for (int i : f) r.push_back(pool[i]); return r; }
  struct PIt { E** p; E& operator*() const { return **p; } PIt& operator++() { ++p; return *this; } bool operator!=(PIt o) const { return p != o.p; } bool operator==(PIt o) const { return p == o.p; } };
  V someFree() { V f = free_(), r; int n = rng.below(5); for (int i = 0; i < n && !f.empty(); ++i) { int j = rng.below(f.size()); r.push_back(f[j]); f.erase(f.begin() + j); } return r; }
  void step() {
    int k = rng.below(2), o = 1 - k; C &a = *c[k], &b = *c[o]; V &A = m[k], &B = m[o]; std::string n = k ? "B" : "A";
    poison = rng.below(2); bad_dispose = false; disposed.clear(); cloned.clear();
    const char* tg = "";
    auto chkit = [&](CIt it, size_t pos, const char* what) { CHK("C03 C20", it == at(k, pos), std::string(what) + " returned a wrong iterator (expected index " + S(pos) + ", got " + S(idx(k, it)) + ")"); };
    switch (rng.below(34)) {
    case 0: { int e = anyfree(); vh::op("C03 C16 C14", n + ".push_front(" + S(e) + ")"); a.push_front(*pool[e]); A.insert(A.begin(), e); break; }
    case 1: { if constexpr (!S_ || K::cl) { int e = anyfree(); vh::op("C03 C16 C14", n + ".push_back(" + S(e) + ")"); a.push_back(*pool[e]); A.push_back(e); } break; }
    case 2: if (!A.empty()) { int e = A.front(); if (rng.flip()) { vh::op("C03 C16 C14", n + ".pop_front()"); a.pop_front(); A.erase(A.begin()); } else { vh::op("C03 C16 C14 C19", n + ".pop_front_and_dispose()"); a.pop_front_and_dispose(Disp{this}); A.erase(A.begin()); dchk(V(1, e)); } } break;
    case 3: if constexpr (!S_) if (!A.empty()) { int e = A.back(); if (rng.flip()) { vh::op("C03 C16 C14", n + ".pop_back()"); a.pop_back(); A.pop_back(); } else { vh::op("C03 C16 C14 C19", n + ".pop_back_and_dispose()"); a.pop_back_and_dispose(Disp{this}); A.pop_back(); dchk(V(1, e)); } } break;
    case 4: { int e = anyfree(), p = P(k); vh::op("C03 C16 C14 C20", n + ".insert(" + S(p) + "," + S(e) + ")"); It r = a.insert(at(k, p), *pool[e]); A.insert(A.begin() + p, e); chkit(r, p, "insert"); break; }
    case 5: { V f = someFree(); int p = P(k); vh::op("C03 C16 C14", n + ".insert range(" + S(p) + "," + vh::seq(f) + ")"); auto q = ptrs(f); a.insert(at(k, p), PIt{q.data()}, PIt{q.data() + q.size()}); A.insert(A.begin() + p, f.begin(), f.end()); break; }
    case 6: { V f = someFree(); auto q = ptrs(f); if (rng.flip()) { vh::op("C03 C16 C14", n + ".assign(" + vh::seq(f) + ")"); V old = A; a.assign(PIt{q.data()}, PIt{q.data() + q.size()}); A = f; if (!K::track) for (int i : old) remake(i); }
      else { vh::op("C03 C16 C14 C19", n + ".dispose_and_assign(" + vh::seq(f) + ")"); V old = A; a.dispose_and_assign(Disp{this}, PIt{q.data()}, PIt{q.data() + q.size()}); A = f; dchkset(old); } break; }
    case 7: if (!A.empty()) { int p = rng.below(A.size()); int e = A[p]; if (rng.flip()) { vh::op("C03 C16 C14 C20", n + ".erase(" + S(p) + ")"); It r = a.erase(at(k, p)); A.erase(A.begin() + p); chkit(r, p, "erase"); } else { vh::op("C03 C16 C14 C19 C20", n + ".erase_and_dispose(" + S(p) + ")"); It r = rng.flip() ? a.erase_and_dispose(at(k, p), Disp{this}) : a.erase_and_dispose(at(k, p).unconst(), Disp{this}); A.erase(A.begin() + p); dchk(V(1, e)); chkit(r, p, "erase_and_dispose"); } } break;
    case 8: case 9: { int p = P(k), q = P(k); if (p > q) std::swap(p, q); V x(A.begin() + p, A.begin() + q); int w = rng.below(3); vh::op(w == 2 ? "C03 C16 C14 C19 C20" : "C03 C16 C14 C20", n + ".erase range(" + S(p) + "," + S(q) + ") variant " + S(w)); It r;
        if (w == 0) r = a.erase(at(k, p), at(k, q)); else if (w == 1) r = a.erase(at(k, p), at(k, q), q - p); else r = a.erase_and_dispose(at(k, p), at(k, q), Disp{this});
        A.erase(A.begin() + p, A.begin() + q); if (w == 2) dchk(x); chkit(r, p, "erase range"); break; }
    case 10: { V old = A; if (rng.below(4)) break; if (rng.flip()) { vh::op("C03 C16 C14", n + ".clear()"); a.clear(); A.clear(); if (!K::track) for (int i : old) remake(i); } else { vh::op("C03 C16 C14 C19", n + ".clear_and_dispose()"); a.clear_and_dispose(Disp{this}); A.clear(); dchkset(old); } break; }
    case 11: { tg = "C21"; vh::op("C03 C16 C14 C21", "swap"); if (rng.flip()) a.swap(b); else swap(a, b); A.swap(B); break; }
    case 12: { unsigned x = rng.below(2 * A.size() + 3); vh::op("C03 C16", n + ".shift_backwards(" + S(x) + ")"); a.shift_backwards(x); if (!A.empty()) std::rotate(A.begin(), A.begin() + (A.size() - x % A.size()) % A.size(), A.end()); break; }
    case 13: { unsigned x = rng.below(2 * A.size() + 3); vh::op("C03 C16", n + ".shift_forward(" + S(x) + ")"); a.shift_forward(x); if (!A.empty()) std::rotate(A.begin(), A.begin() + x % A.size(), A.end()); break; }
    case 14: { // clone
      if (pool.size() > 60) break; tg = "C18"; V old = A; bool mv = rng.flip(), thr = rng.flip(); vh::fuse = thr ? (long)rng.below(B.size() + 1) : -1; size_t p0 = pool.size(); bool threw = false; vh::op("C03 C16 C14 C17 C18 C19", n + ".clone_from(" + (mv ? "move" : "copy") + " throw " + S(vh::fuse) + ")");
      try { if (mv) a.clone_from(std::move(b), CloneM{this}, Disp{this}); else a.clone_from((const C&)b, Clone{this}, Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
      V nw; for (size_t i = p0; i < pool.size(); ++i) nw.push_back(i); V exp = old;
      if (threw) { tg = "C17 C18"; A.clear(); exp.insert(exp.end(), nw.begin(), nw.end()); CHK("C18 C17", cloned == V(B.begin(), B.begin() + cloned.size())); V d = disposed, ee = exp; std::sort(d.begin(), d.end()); std::sort(ee.begin(), ee.end()); CHK("C17 C18 C19", d == ee, "clones disposed after throw"); CHK("C19 C18", !bad_dispose); disposed.clear(); revive(); }
      else { A = nw; CHK("C18", cloned == B, "cloned " + vh::seq(cloned)); V d = disposed; std::sort(d.begin(), d.end()); std::sort(exp.begin(), exp.end()); CHK("C18 C19", d == exp); CHK("C19 C18", !bad_dispose); disposed.clear(); revive(); }
      break; }
    case 15: case 16: { int p = P(k); if constexpr (S_) { bool wl = rng.flip(); CIt l; int w = rng.below(2); vh::op("C03 C16 C20", n + (w ? ".splice_after" : ".splice") + "(" + S(p) + ", other) l=" + S(wl)); size_t bs = B.size(); if (w) a.splice_after(atb(k, p), b, wl ? &l : 0); else a.splice(at(k, p), b, wl ? &l : 0); A.insert(A.begin() + p, B.begin(), B.end()); B.clear(); if (wl) CHK("C03 C20", l == atb(k, p + bs), "splice: l"); }
        else { vh::op("C03 C16", n + ".splice(" + S(p) + ", other)"); a.splice(at(k, p), b); A.insert(A.begin() + p, B.begin(), B.end()); B.clear(); } break; }
    case 17: case 18: if (!B.empty()) { int p = P(k), q = rng.below(B.size()), e = B[q]; int w = rng.flip(); vh::op("C03 C16", n + ".splice element(" + S(p) + "," + S(q) + ") variant " + S(w)); if constexpr (S_) { if (w) a.splice_after(atb(k, p), b, atb(o, q)); else a.splice(at(k, p), b, at(o, q)); } else a.splice(at(k, p), b, at(o, q)); B.erase(B.begin() + q); A.insert(A.begin() + p, e); } break;
    case 19: case 20: { int p = P(k), f = P(o), l = P(o); if (f > l) std::swap(f, l); int w = rng.below(S_ ? 4 : 2); vh::op("C03 C16", n + ".splice range(" + S(p) + ",[" + S(f) + "," + S(l) + ")) variant " + S(w)); 
        if constexpr (S_) { if (w == 0) a.splice(at(k, p), b, at(o, f), at(o, l)); else if (w == 1) a.splice(at(k, p), b, at(o, f), at(o, l), l - f); else if (w == 2) a.splice_after(atb(k, p), b, atb(o, f), atb(o, l)); else a.splice_after(atb(k, p), b, atb(o, f), atb(o, l), l - f); }
        else { if (w == 0) a.splice(at(k, p), b, at(o, f), at(o, l)); else a.splice(at(k, p), b, at(o, f), at(o, l), l - f); }
        V x(B.begin() + f, B.begin() + l); B.erase(B.begin() + f, B.begin() + l); A.insert(A.begin() + p, x.begin(), x.end()); break; }
    case 21: if (!A.empty()) { // splice inside the same list
        int f = P(k), l = P(k), p = P(k); if (f > l) std::swap(f, l); V x(A.begin() + f, A.begin() + l);
        if constexpr (!S_) { if (rng.flip()) { if (f == (int)A.size()) break; vh::op("C03 C16", n + ".splice self element(" + S(p) + "," + S(f) + ")"); a.splice(at(k, p), a, at(k, f)); l = f + 1; x = V(1, A[f]); if (p == f || p == l) break; } else { if (p >= f && p <= l && !(p == l || p == f)) break; if (p == f && f != l) break; vh::op("C03 C16", n + ".splice self range(" + S(p) + ",[" + S(f) + "," + S(l) + "))"); a.splice(at(k, p), a, at(k, f), at(k, l)); } }
        else { if (p > f && p < l) break; vh::op("C03 C16", n + ".splice_after self range(" + S(p) + ",(" + S(f) + "," + S(l) + "])"); a.splice_after(atb(k, p), a, atb(k, f), atb(k, l)); if (p == f || p == l) break; }
        if (f == l || p == f || p == l) break; A.erase(A.begin() + f, A.begin() + l); if (p >= l) p -= l - f; A.insert(A.begin() + p, x.begin(), x.end()); } break;
    case 22: case 23: { bool thr = rng.below(3) == 0; vh::fuse = thr ? (long)rng.below(A.size() + 2) : -1; bool threw = false; int w = rng.flip(); vh::op(thr ? "C03 C16 C17" : "C03 C16", n + ".sort(" + (w ? "Less" : "") + ") throw " + S(vh::fuse)); try { if (w) a.sort(Less()); else a.sort(); } catch (vh::Boom&) { threw = true; } vh::fuse = -1; if (threw) { tg = "C17"; resync(true, "C17"); } else sortm(k); break; }
    case 24: case 25: { a.sort(Less()); b.sort(Less()); sortm(k); sortm(o); bool thr = rng.below(3) == 0; vh::fuse = thr ? (long)rng.below(A.size() + B.size() + 2) : -1; bool threw = false; int w = rng.below(S_ ? 3 : 2); vh::op(thr ? "C03 C16 C17" : "C03 C16", n + ".sort;other.sort;" + n + ".merge variant " + S(w) + " throw " + S(vh::fuse)); CIt l; bool be = B.empty();
        try { if (w == 0) a.merge(b); else if (w == 1) a.merge(b, Less()); else if constexpr (S_) a.merge(b, Less(), &l); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
        if (threw) { tg = "C17"; resync(false, "C17"); } else { int lastb = be ? -1 : B.back(); V r; std::merge(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(r), [&](int x, int y) { return pool[x]->val < pool[y]->val; }); A = r; B.clear(); if (w == 2) { if (be) chkit(l, A.size(), "merge l"); else chkit(l, std::find(A.begin(), A.end(), lastb) - A.begin(), "merge l"); } } break; }
    case 26: { vh::op("C03 C16", n + ".reverse()"); a.reverse(); std::reverse(A.begin(), A.end()); break; }
    case 27: case 28: { int v = rng.below(nval); V x, y; bool par = rng.flip(); auto pr = [&](int i) { return par ? pool[i]->val % 2 == v % 2 : pool[i]->val == v; }; for (int i : A) (pr(i) ? x : y).push_back(i);
        int w = rng.below(4); bool thr = rng.below(3) == 0; if (w < 2) { par = false; x.clear(); y.clear(); for (int i : A) (pr(i) ? x : y).push_back(i); }
        E key; key.val = v; key.id = -1; auto P1 = [&](const E& e) { vh::tick(); return par ? e.val % 2 == v % 2 : e.val == v; }; vh::fuse = thr ? (long)rng.below(A.size() + 1) : -1; bool threw = false;
        vh::op(thr ? "C03 C16 C14 C17" : w & 1 ? "C03 C16 C14 C19" : "C03 C16 C14", n + ".remove variant " + S(w) + " value " + S(v) + " parity " + S(par) + " throw " + S(vh::fuse));
        try { if (w == 0) a.remove(key); else if (w == 1) a.remove_and_dispose(key, Disp{this}); else if (w == 2) a.remove_if(P1); else a.remove_and_dispose_if(P1, Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
        if (threw) { tg = "C17"; CHK("C17 C19", disposed.empty()); resync(false, "C17"); } else { A = y; if (w & 1) dchk(x); else if (!K::track) for (int i : x) remake(i); } break; }
    case 29: case 30: { int w = rng.below(4); bool par = w >= 2 && rng.flip(); V x, y; for (int i : A) { bool d = !y.empty() && (par ? pool[y.back()]->val % 2 == pool[i]->val % 2 : pool[y.back()]->val == pool[i]->val); (d ? x : y).push_back(i); }
        bool thr = rng.below(3) == 0; vh::fuse = thr ? (long)rng.below(A.size() + 1) : -1; bool threw = false; V old = A; vh::op(thr ? "C03 C16 C14 C17" : w & 1 ? "C03 C16 C14 C19" : "C03 C16 C14", n + ".unique variant " + S(w) + " parity " + S(par) + " throw " + S(vh::fuse));
        try { if (w == 0) a.unique(); else if (w == 1) {
#ifndef NO_SLIST_UD
          a.unique_and_dispose(Disp{this});
#else
          a.unique_and_dispose(Eq(), Disp{this});
#endif
        } else if (w == 2) { if (par) a.unique(PrimeEq()); else a.unique(Eq()); } else { if (par) a.unique_and_dispose(PrimeEq(), Disp{this}); else a.unique_and_dispose(Eq(), Disp{this}); } } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
        if (threw) { tg = "C17"; V d = disposed; resync(true, "C17"); std::set<int> left(A.begin(), A.end()); V gone; for (int i : old) if (!left.count(i)) gone.push_back(i); if (w & 1) { CHK("C17 C19", d == gone, "unique interrupted: disposed elements are not the removed ones"); disposed.clear(); revive(); } for (int i : gone) CHK("C17", std::find(x.begin(), x.end(), i) != x.end(), "element removed although not a duplicate"); V r; for (int i : old) if (left.count(i)) r.push_back(i); CHK("C17", r == A, "order changed"); }
        else { A = y; if (w & 1) dchk(x); else if (!K::track) for (int i : x) remake(i); } break; }
    case 31: { tg = "C21"; V old = A; int w = rng.flip(); vh::op("C03 C16 C14 C21", w ? n + " = move(other)" : n + " move constructed away and back");
        if (w) { a = std::move(b); A = B; B.clear(); V gb; for (CIt i = b.cbegin(); i != b.cend() && gb.size() < 999; ++i) gb.push_back(i->id); 
            if (gb == old && !old.empty()) B = old; // move assignment may swap
            else { if (!K::track) for (int i : old) remake(i); } }
        else { typename std::aligned_storage<sizeof(C), alignof(C)>::type tmp; C* t = new (&tmp) C(std::move(a)); V g; for (CIt i = t->cbegin(); i != t->cend() && g.size() < 999; ++i) g.push_back(i->id); CHK("C21", g == A, "move constructed " + vh::seq(g)); CHK("C21 C16", t->size() == A.size()); CHK("C21", a.empty()); CHK("C21 C16", a.size() == 0); CHK("C21", a.begin() == a.end()); a.~C(); memset((void*)&st[k], 0xEE, sizeof(C)); c[k] = new (&st[k]) C(std::move(*t)); CHK("C21", t->empty() && t->size() == 0); t->~C(); memset(&tmp, 0xEE, sizeof tmp); }
        break; }
    case 32: if constexpr (K::autou) { int i = rng.below(pool.size() + 1); if (i == (int)pool.size()) break; bool dst = rng.flip(); vh::op("C14", std::string(dst ? "destroy" : "unlink") + " element " + S(i)); tg = "C14"; if (dst) { int v = pool[i]->val; pool[i]->~E(); remake(i, v); } else unl(*pool[i], std::integral_constant<bool, K::autou>()); for (int q = 0; q < 2; ++q) m[q].erase(std::remove(m[q].begin(), m[q].end(), i), m[q].end()); }
      else if constexpr (S_) { int w = rng.below(3);
        if (w == 0) { int e = anyfree(), p = P(k); vh::op("C03 C16 C20", n + ".insert_after(" + S(p) + "," + S(e) + ")"); It r = a.insert_after(atb(k, p), *pool[e]); A.insert(A.begin() + p, e); chkit(r, p, "insert_after"); }
        else if (w == 1) { V f = someFree(); int p = P(k); vh::op("C03 C16", n + ".insert_after range(" + S(p) + "," + vh::seq(f) + ")"); auto q = ptrs(f); a.insert_after(atb(k, p), PIt{q.data()}, PIt{q.data() + q.size()}); A.insert(A.begin() + p, f.begin(), f.end()); }
        else { int p = P(k), q = P(k); if (p > q) std::swap(p, q); int v = rng.below(5); vh::op(v >= 3 ? "C03 C16 C14 C19 C20" : "C03 C16 C14 C20", n + ".erase_after(" + S(p) + "," + S(q) + ") variant " + S(v)); V x(A.begin() + p, A.begin() + q); It r;
          if (v == 0) { if (p == q) break; r = a.erase_after(atb(k, p)); x.resize(1); q = p + 1; } else if (v == 1) r = a.erase_after(atb(k, p), at(k, q)); else if (v == 2) r = a.erase_after(atb(k, p), at(k, q), q - p); else if (v == 3) r = a.erase_after_and_dispose(atb(k, p), at(k, q), Disp{this}); else { if (p == q) break; r = a.erase_after_and_dispose(atb(k, p), Disp{this}); x.resize(1); q = p + 1; }
          A.erase(A.begin() + p, A.begin() + q); if (v >= 3) dchk(x); chkit(r, p, "erase_after"); } } break;
    case 33: { vh::op("C03", "compare"); auto vv = [&](const V& x) { V r; for (int i : x) r.push_back(pool[i]->val); return r; }; V x = vv(A), y = vv(B); CHK("C03", (a == b) == (x == y)); CHK("C03", (a != b) == (x != y)); CHK("C03", (a < b) == (x < y)); CHK("C03", (a > b) == (x > y)); CHK("C03", (a <= b) == (x <= y)); CHK("C03", (a >= b) == (x >= y)); break; }
    }
    chk(tg);
  }
  void end() { // destruction releases the elements
    vh::op("C14", "destroy containers"); bool cl0 = !K::track; for (int k = 0; k < 2; ++k) { if (cl0) c[k]->clear(); c[k]->~C(); m[k].clear(); }
    if (K::track) for (size_t i = 0; i < pool.size(); ++i) CHK("C14", !pool[i]->linked(), "element " + S(i) + " still linked after its container was destroyed");
    for (auto e : pool) { e->~E(); ::operator delete((void*)e); }
  }
};
template <class K> void runs(const char* name, int n) {
  if (vh::thorough) n *= 40;
  for (int i = 0; i < n && !vh::time_up(); ++i) {
    uint64_t s = vh::mix(vh::seed, i * 131 + std::hash<std::string>()(name)) ;
    vh::history(std::string(name) + " #" + S(i), [&] { World<K>* w = new World<K>(s); vh::fuse = -1; w->setw(); int len = 1 + w->rng.below(i % 4 ? 14 : 60); w->chk(""); for (int j = 0; j < len; ++j) w->step(); w->end(); delete w; });
  }
}
typedef bi::link_mode<bi::safe_link> SL; typedef bi::link_mode<bi::normal_link> NL; typedef bi::link_mode<bi::auto_unlink> AL;
template <bool B> using CT = bi::constant_time_size<B>;
// list configurations
typedef BaseE<bi::list_base_hook<SL>> LB; typedef BaseE<bi::list_base_hook<NL>> LN; typedef BaseE<bi::list_base_hook<AL>> LA;
typedef MemE<bi::list_member_hook<SL>> LM; typedef MemE<bi::list_member_hook<AL>> LMA;
typedef BaseE<bi::any_base_hook<>> LY; typedef MemE<bi::any_member_hook<>> LYM;
template <class E, class H> using MH = bi::member_hook<E, H, &E::hk>;
struct NTE : NodeL, Cmn { bool linked() const { return false; } };
// slist
typedef BaseE<bi::slist_base_hook<SL>> SB; typedef BaseE<bi::slist_base_hook<NL>> SN; typedef BaseE<bi::slist_base_hook<AL>> SA; typedef MemE<bi::slist_member_hook<SL>> SM;
template <bool Ct, bool Li, bool Ca, class E = SB> using SL_ = bi::slist<E, CT<Ct>, bi::linear<Li>, bi::cache_last<Ca>>;
int main(int argc, char** argv) {
  vh::init(argc, argv);
  int n = 4000;
  runs<Cfg<bi::list<LB>, LB, 1, 0, 1, 0, 0, 0>>("list base safe ct", n);
  runs<Cfg<bi::list<LB, CT<false>, bi::size_type<unsigned short>>, LB, 1, 0, 0, 0, 0, 0>>("list base safe", n);
  runs<Cfg<bi::list<LN, CT<true>>, LN, 0, 0, 1, 0, 0, 0>>("list base normal ct", n);
  runs<Cfg<bi::list<LA, CT<false>>, LA, 1, 1, 0, 0, 0, 0>>("list base auto", n);
  runs<Cfg<bi::list<LM, MH<LM, bi::list_member_hook<SL>>>, LM, 1, 0, 1, 0, 0, 0>>("list member safe", n);
  runs<Cfg<bi::list<LMA, MH<LMA, bi::list_member_hook<AL>>, CT<false>>, LMA, 1, 1, 0, 0, 0, 0>>("list member auto", n);
  runs<Cfg<bi::list<LY, bi::any_to_list_hook<bi::base_hook<bi::any_base_hook<>>>>, LY, 1, 0, 1, 0, 0, 0>>("list any base", n);
  runs<Cfg<bi::list<DerivE, bi::value_traits<bi::derivation_value_traits<DerivE, bi::list_node_traits<void*>>>>, DerivE, 0, 0, 1, 0, 0, 0>>("list derivation traits", n);
  runs<Cfg<SL_<1, 0, 0>, SB, 1, 0, 1, 1, 0, 0>>("slist ct", n);
  runs<Cfg<SL_<0, 0, 0>, SB, 1, 0, 0, 1, 0, 0>>("slist", n);
  runs<Cfg<SL_<1, 0, 1>, SB, 1, 0, 1, 1, 0, 1>>("slist ct cachelast", n);
  runs<Cfg<SL_<0, 0, 1>, SB, 1, 0, 0, 1, 0, 1>>("slist cachelast", n);
  runs<Cfg<SL_<1, 1, 0>, SB, 0, 0, 1, 1, 1, 0>>("slist ct linear", n);
  runs<Cfg<SL_<0, 1, 0, SN>, SN, 0, 0, 0, 1, 1, 0>>("slist linear normal", n);
  runs<Cfg<SL_<1, 1, 1>, SB, 0, 0, 1, 1, 1, 1>>("slist ct linear cachelast", n);
  runs<Cfg<SL_<0, 1, 1, SN>, SN, 0, 0, 0, 1, 1, 1>>("slist linear cachelast normal", n);
  runs<Cfg<bi::slist<SA, CT<false>>, SA, 1, 1, 0, 1, 0, 0>>("slist auto", n);
  runs<Cfg<bi::slist<SM, MH<SM, bi::slist_member_hook<SL>>, bi::cache_last<true>>, SM, 1, 0, 1, 1, 0, 1>>("slist member cachelast", n);
  runs<Cfg<bi::slist<LY, bi::any_to_slist_hook<bi::base_hook<bi::any_base_hook<>>>>, LY, 1, 0, 1, 1, 0, 0>>("slist any", n);
  runs<Cfg<bi::slist<DerivSE, bi::value_traits<bi::derivation_value_traits<DerivSE, bi::slist_node_traits<void*>>>>, DerivSE, 0, 0, 1, 1, 0, 0>>("slist derivation traits", n);
  return vh::done();
}

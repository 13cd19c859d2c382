// Hash containers against a multiset model. C11 C12 C13 C14 C16 C17 C18 C19 C20 C21
#include "vh.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/hashtable.hpp>
#include <boost/intrusive/any_hook.hpp>
#ifndef PART
#define PART -1
#endif
namespace bi = boost::intrusive;
typedef std::vector<int> V;
struct Cmn { int id, key; friend bool operator==(const Cmn& a, const Cmn& b) { vh::tick(); return a.key == b.key; } };
struct Hsh { int mode; Hsh(int m = 3) : mode(m) {}
  std::size_t raw(int k) const { std::size_t x = (unsigned)k; switch (mode) { case 0: return 7; case 1: return x % 2; case 2: return x % 5 * 3; case 3: return x; case 4: return (std::size_t)vh::mix(x, 77); case 5: return x << 32 | 1; default: return (x % 3) * 0x9E3779B97F4A7C15ull + x * 64; } }
  std::size_t operator()(int k) const { vh::tick(); return raw(k); }
  std::size_t operator()(const Cmn& c) const { vh::tick(); return raw(c.key); } };
struct Eql { int tag; Eql(int t = 0) : tag(t) {} bool e(int a, int b) const { vh::tick(); return a == b; }
  bool operator()(const Cmn& a, const Cmn& b) const { return e(a.key, b.key); } bool operator()(int a, const Cmn& b) const { return e(a, b.key); } bool operator()(const Cmn& a, int b) const { return e(a.key, b); } };
template <class Hook> struct BaseE : Cmn, Hook { bool linked() const { if constexpr (Hook::hooktags::safemode_or_autounlink) return Hook::is_linked(); else return false; } void unl() { if constexpr ((int)Hook::hooktags::link_mode == (int)bi::auto_unlink) Hook::unlink(); } };
struct Junk { virtual ~Junk() {} long a[3]; };
template <class Hook> struct MemE : Junk, Cmn { char pad[5]; Hook hk; char pad2[3]; bool linked() const { return hk.is_linked(); } void unl() { if constexpr ((int)Hook::hooktags::link_mode == (int)bi::auto_unlink) hk.unlink(); } };
// BK: bucket kind 0 any 1 power of two 2 fastmod primes.  MODE 0 hashtable unique/equal mix per world, 1 unordered_set, 2 unordered_multiset
template <class C, class El, int Mode, bool Track, bool Auto, bool CT_, int Bk, bool Inc> struct Cfg { typedef C cont; typedef El E; static const int mode = Mode, bk = Bk; static const bool track = Track, autou = Auto, ct = CT_, inc = Inc; };
template <class K> struct World {
  typedef typename K::cont C; typedef typename K::E E; typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::local_iterator LIt; typedef typename C::const_local_iterator CLIt; typedef typename C::value_traits VT; typedef typename C::node_traits NT;
  typedef typename C::bucket_type BT; typedef typename C::bucket_traits BTr; typedef typename C::insert_commit_data CD; typedef typename C::size_type ST;
  static const int MODE = K::mode; static const size_t OV = C::bucket_overhead; static const size_t CAP = 140; static const int NB = 5;
  typename std::aligned_storage<sizeof(C), alignof(C)>::type st[2];
  C* c[2]; V m[2], ord[2]; int buf[2]; size_t bc[2]; int hm[2], et[2]; std::vector<E*> pool; V where; vh::Rng rng; int nkey; V disposed, cloned; bool poison, bad_dispose, uniq; std::map<int, int> vals; V dead; char* mem[NB]; bool dis[NB]; std::map<int, size_t> stored;
  World(uint64_t s) : rng(s), poison(false), bad_dispose(false) {
    uniq = MODE == 1 || (MODE == 0 && rng.flip()); for (int i = 0; i < NB; ++i) { mem[i] = (char*)::operator new(sizeof(BT) * CAP); memset(mem[i], 0x77, sizeof(BT) * CAP); dis[i] = false; }
    for (int i = 0; i < 2; ++i) mk(i, newbuf(), cnt());
    nkey = rng.flip() ? 1 + rng.below(6) : 1 + rng.below(40); int k = rng.below(3) ? rng.below(10) : rng.below(40); for (int i = 0; i < k; ++i) add(rng.below(nkey)); }
  void mk(int i, int b, size_t n) { hm[i] = rng.below(7); et[i] = rng.below(100); buf[i] = b; bc[i] = n; dis[b] = true; c[i] = new (&st[i]) C(BTr(bp(b), ST(n + OV)), Hsh(hm[i]), Eql(et[i])); }
  typename C::bucket_ptr bp(int b) { return typename C::bucket_ptr((BT*)mem[b]); }
  int newbuf() { int b; do b = rng.below(NB); while (dis[b]); return b; }
  void freebuf(int b) { dis[b] = false; memset(mem[b], 0x77, sizeof(BT) * CAP); }
  size_t cnt() { static const size_t pr[] = {3, 7, 11, 17, 29, 53, 97}; if (K::bk == 2) return pr[rng.below(7)]; if (K::bk == 1) return (size_t)1 << rng.below(rng.flip() ? 4 : 7); return 1 + rng.below(rng.flip() ? 6 : 60); }
  int add(int key) { void* p = ::operator new(sizeof(E)); memset(p, 0x5a, sizeof(E)); E* e = new (p) E(); e->id = pool.size(); e->key = key; pool.push_back(e); where.push_back(-1); return e->id; }
  void remake(int id, int k) { E* e = pool[id]; memset((void*)e, 0x5a, sizeof(E)); new ((void*)e) E(); e->id = id; e->key = k; }
  void remake(int id) { remake(id, pool[id]->key); }
  int key(int id) { return pool[id]->key; }
  V free_() { V f; for (size_t i = 0; i < pool.size(); ++i) if (where[i] < 0) f.push_back(i); return f; }
  int anyfree() { V f = free_(); if (f.empty()) return add(rng.below(nkey)); return f[rng.below(f.size())]; }
  void setw() { for (auto& w : where) w = -1; for (int k = 0; k < 2; ++k) for (int i : m[k]) where[i] = k; }
  V withkey(int k, int kk) { V r; for (int i : ord[k]) if (key(i) == kk) r.push_back(i); return r; }
  bool has(int k, int kk) { for (int i : m[k]) if (key(i) == kk) return true; return false; }
  void rm(int k, int id) { m[k].erase(std::find(m[k].begin(), m[k].end(), id)); ord[k].erase(std::find(ord[k].begin(), ord[k].end(), id)); }
  struct Disp { World* w; void operator()(E* e) { if (K::track && e->linked()) w->bad_dispose = true; w->disposed.push_back(e->id); if (w->poison) { int id = e->id; w->vals[id] = e->key; e->~E(); memset((void*)e, 0xFE, sizeof(E)); w->dead.push_back(id); } } };
  void revive() { for (int i : dead) remake(i, vals[i]); dead.clear(); }
  struct Clone { World* w; E* operator()(const E& e) { vh::tick(); w->cloned.push_back(e.id); return w->pool[w->add(e.key)]; } };
  struct CloneM { World* w; E* operator()(E& e) { vh::tick(); w->cloned.push_back(e.id); return w->pool[w->add(e.key)]; } };
  CIt at(int k, size_t p) { if (p >= ord[k].size()) return c[k]->cend(); return ((const C*)c[k])->iterator_to((const E&)*pool[ord[k][p]]); }
  static auto np(E& e) -> decltype(VT::to_node_ptr(e)) { return VT::to_node_ptr(e); }
  template <class A> static std::string js(const A& a) { return vh::seq(a); }
  // expected bucket, computed independently
  long expb(int k, size_t h) { size_t n = bc[k]; if (K::bk == 2) return -1; if (!K::inc) return K::bk == 1 ? h & (n - 1) : h % n; size_t b = h & (n - 1); if (b >= (size_t)c[k]->split_count()) b -= n / 2; return b; }
  void chk(const char* tg) {
    std::string s11 = std::string("C11 ") + tg, s16 = std::string("C16 ") + tg, s14 = std::string("C14 ") + tg, s20 = std::string("C20 C11 ") + tg, s13 = std::string("C13 C12 C11 ") + tg; const char *t11 = s11.c_str(), *t16 = s16.c_str(), *t14 = s14.c_str(), *t20 = s20.c_str(), *t13 = s13.c_str();
    const char* sv = vh::cur_tags; std::string crash = s11 + " C20 C16"; vh::cur_tags = crash.c_str(); long sf = vh::fuse; vh::fuse = -1; setw(); uint64_t hs = MODE * 7 + K::bk;
    for (int k = 0; k < 2; ++k) {
      C& t = *c[k]; const C& ct = t; size_t n = m[k].size(); V got;
      CHK(t13, t.bucket_count() == bc[k], "bucket_count() " + S(t.bucket_count()) + ", expected " + S(bc[k])); CHK(t13, t.bucket_pointer() == bp(buf[k]), "bucket_pointer()");
      if constexpr (K::inc) CHK(t13, t.split_count() <= bc[k] && t.split_count() >= bc[k] / 2, "split_count() " + S(t.split_count()));
      V byb; size_t tot = 0;
      for (size_t b = 0; b < bc[k]; ++b) { size_t q = 0; for (LIt i = t.begin(ST(b)); i != t.end(ST(b)); ++i) { CHK(t11, q <= n, "bucket " + S(b) + " does not end"); int id = i->id; CHK(t11, id >= 0 && id < (int)pool.size() && pool[id] == &*i, "bucket " + S(b) + " holds something that is not an element"); ++q; byb.push_back(id); CHK(t13, t.bucket(key(id), ct.hash_function()) == b, "element " + S(id) + " is in bucket " + S(b) + ", bucket(key) is " + S(t.bucket(key(id), ct.hash_function()))); size_t h = ct.hash_function().raw(key(id)); long eb = expb(k, h); if (eb >= 0) CHK(t13, (size_t)eb == b, "element " + S(id) + " is in bucket " + S(b) + ", expected " + S(eb));
            if constexpr (C::store_hash) CHK(t11, NT::get_hash(np(*pool[id])) == h, "stored hash of element " + S(id)); }
        tot += q; CHK(t16, t.bucket_size(ST(b)) == q, "bucket_size(" + S(b) + ")"); size_t q2 = 0; for (CLIt i = ct.begin(ST(b)); i != ct.cend(ST(b)) && q2 <= n; i++) ++q2; CHK(t20, q2 == q); hs = vh::mix(hs, q); }
      for (CIt i = ct.begin(); i != ct.end() && got.size() <= n; ++i) got.push_back(i->id);
      V sg = got, sm = m[k]; std::sort(sg.begin(), sg.end()); std::sort(sm.begin(), sm.end());
      CHK(t11, sg == sm, "table " + S(k) + " traversal visits " + js(got) + ", expected the elements " + js(sm)); CHK(t20, got == byb, "traversal " + js(got) + " differs from bucket traversal " + js(byb));
      V g2; for (It i = t.begin(); i != t.end() && g2.size() <= n; i++) g2.push_back(i->id); CHK(t20, g2 == got); CHK(t20, ct.cbegin() == CIt(t.begin()) && ct.cend() == CIt(t.end()));
      CHK(t16, (size_t)t.size() == n, "size() is " + S(t.size()) + ", elements " + S(n)); CHK(t16, t.empty() == (n == 0));
      std::set<int> seenk; for (size_t i = 0; i < n; ++i) { int kk = key(got[i]); if (i && key(got[i - 1]) == kk) continue; CHK(t11, seenk.insert(kk).second, "equivalent elements with key " + S(kk) + " are not contiguous: " + js(got)); size_t j = i; while (j < n && key(got[j]) == kk) ++j; hs = vh::mix(hs, kk * 64 + (j - i));
        if constexpr (C::optimize_multikey) { for (size_t x = i; x < j; ++x) CHK(t11, NT::get_prev_in_group(np(*pool[got[x]])) == np(*pool[got[x == i ? j - 1 : x - 1]]), "group link of element " + S(got[x])); }
        CHK(t11, (size_t)ct.count(kk, ct.hash_function(), ct.key_eq()) == j - i, "count(key " + S(kk) + ")"); CIt f = ct.find(kk, ct.hash_function(), ct.key_eq()); CHK(t11, f != ct.end() && f->key == kk, "find(key " + S(kk) + ")"); auto r = ct.equal_range(kk, ct.hash_function(), ct.key_eq()); V e; for (CIt y = r.first; y != r.second && e.size() <= n; ++y) e.push_back(y->id); CHK(t11, e == V(got.begin() + i, got.begin() + j), "equal_range(key " + S(kk) + ") is " + js(e)); CHK(t11, r.second == (j == n ? ct.cend() : CIt(ct.iterator_to((const E&)*pool[got[j]])))); }
      CHK(t11, !uniq || MODE == 2 || seenk.size() == n, "duplicate key in a unique container"); int ab = nkey + 100000; CHK(t11, ct.find(ab, ct.hash_function(), ct.key_eq()) == ct.end() && ct.count(ab, ct.hash_function(), ct.key_eq()) == 0);
      for (int x : m[k]) { E& e = *pool[x]; CHK(t20, &*t.iterator_to(e) == &e && &*ct.iterator_to((const E&)e) == &e && &*t.local_iterator_to(e) == &e && &*ct.local_iterator_to((const E&)e) == &e, "iterator_to"); CHK(t20, &*C::s_local_iterator_to(e) == &e && &*C::s_local_iterator_to((const E&)e) == &e, "s_local_iterator_to"); }
      CHK(tg[0] ? tg : "C21", ct.hash_function().mode == hm[k] && ct.key_eq().tag == et[k], "hash function / equality predicate is not the expected one");
      ord[k] = got;
    }
    if (K::track) for (size_t i = 0; i < pool.size(); ++i) { bool in = where[i] >= 0; CHK(t14, pool[i]->linked() == in, "element " + S(i) + " is_linked() is " + S(!in)); }
    vh::note_state(hs); vh::cur_tags = sv; vh::fuse = sf;
  }
  void dchkset(V exp, const char* t = "C19") { V d = disposed; std::sort(d.begin(), d.end()); std::sort(exp.begin(), exp.end()); CHK(t, d == exp, std::string("disposed ") + js(disposed) + ", expected " + js(exp)); CHK("C19 C14", !bad_dispose, "element handed to the disposer is still linked"); disposed.clear(); revive(); }
  void dchkseq(V exp, const char* t = "C19") { CHK(t, disposed.size() == exp.size(), std::string("disposed ") + js(disposed)); dchkset(exp, t); }
  void relink(const V& gone) { if (!K::track) for (int i : gone) remake(i); }
  struct PIt { E** p; E& operator*() const { return **p; } PIt& operator++() { ++p; return *this; } bool operator!=(PIt o) const { return p != o.p; } bool operator==(PIt o) const { return p == o.p; } };
  V traverse(int k) { V g; for (CIt i = c[k]->cbegin(); i != c[k]->cend() && g.size() <= pool.size(); ++i) g.push_back(i->id); return g; }
  template <class CC> std::pair<It, bool> insU(CC& a, E& e) { if constexpr (MODE == 0) return a.insert_unique(e); else if constexpr (MODE == 1) return a.insert(e); else return std::pair<It, bool>(); }
  template <class CC> It insE(CC& a, E& e) { if constexpr (MODE == 0) return a.insert_equal(e); else if constexpr (MODE == 2) return a.insert(e); else return It(); }
  template <class CC, class I> void insR(CC& a, I b, I e) { if constexpr (MODE == 0) { if (uniq) a.insert_unique(b, e); else a.insert_equal(b, e); } else a.insert(b, e); }
  std::string bs(int k) { return " [bc " + S(bc[k]) + " hash " + S(hm[k]) + "]"; }
  void step() {
    int k = rng.below(2), o = 1 - k; C &a = *c[k], &b = *c[o]; V &A = m[k], &B = m[o]; std::string n = k ? "B" : "A"; const char* tg = ""; const C& ca = a;
    poison = rng.below(2); bad_dispose = false; disposed.clear(); cloned.clear(); bool threw = false; bool thr = rng.below(5) == 0; auto arm = [&](int r) { vh::fuse = thr ? (long)rng.below(r) : -1; }; bool u = MODE == 1 || (MODE == 0 && uniq); Hsh H = a.hash_function(); Eql Q = a.key_eq();
    switch (rng.below(40)) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: { int e = anyfree(), kk = key(e); arm(5); V g0; if (thr) g0 = traverse(k); bool ex = has(k, kk); V A0 = A, O0 = ord[k]; const char* tags = thr ? "C11 C16 C14 C17" : "C11 C16 C14";
      try {
        if (!u) { vh::op(tags, n + ".insert_equal(" + S(e) + " key " + S(kk) + ")" + bs(k) + " throw " + S(vh::fuse)); It r = insE(a, *pool[e]); vh::fuse = -1; A.push_back(e); CHK("C11 C20", &*r == pool[e], "insert result"); }
        else { int w = rng.below(4); vh::op(tags, n + (w < 2 ? ".insert_unique(" : w == 2 ? ".insert_check/commit(" : ".insert_check/fast_commit(") + S(e) + " key " + S(kk) + ")" + bs(k) + " throw " + S(vh::fuse)); std::pair<It, bool> r;
          if constexpr (MODE != 2) { if (w < 2) r = insU(a, *pool[e]); else { CD cd; bool het = rng.flip(); if constexpr (MODE == 0) r = het ? a.insert_unique_check(kk, H, Q, cd) : a.insert_unique_check(*pool[e], cd); else r = het ? a.insert_check(kk, H, Q, cd) : a.insert_check(*pool[e], cd); vh::fuse = -1; CHK("C11", r.second == !ex, "insert_check answered " + S(r.second));
            if (r.second) { if (w == 2 && rng.flip()) { doRehash(k, false); } if constexpr (MODE == 0) r.first = w == 2 ? a.insert_unique_commit(*pool[e], cd) : a.insert_unique_fast_commit(*pool[e], cd); else r.first = w == 2 ? a.insert_commit(*pool[e], cd) : a.insert_fast_commit(*pool[e], cd); } } }
          vh::fuse = -1; CHK("C11", r.second == !ex, "insert_unique answered " + S(r.second)); if (!ex) { A.push_back(e); CHK("C11 C20", &*r.first == pool[e]); } else CHK("C11 C20", r.first != a.end() && r.first->key == kk, "insert_unique does not report the equivalent element"); } }
      catch (vh::Boom&) { vh::fuse = -1; tg = "C17"; A = A0; CHK("C17", traverse(k) == g0, "insertion that threw changed the table"); }
      break; }
    case 7: case 8: { V f = free_(), in; int cn = rng.below(8); for (int i = 0; i < cn && !f.empty(); ++i) { int j = rng.below(f.size()); in.push_back(f[j]); f.erase(f.begin() + j); } std::vector<E*> q; for (int i : in) q.push_back(pool[i]); arm(12); vh::op(thr ? "C11 C16 C14 C17" : "C11 C16 C14", n + ".insert range(" + js(in) + ")" + bs(k) + " throw " + S(vh::fuse));
      try { insR(a, PIt{q.data()}, PIt{q.data() + q.size()}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1; size_t done = in.size(); if (threw) { tg = "C17"; V g = traverse(k); size_t ni = 0; for (int x : in) ni += std::find(g.begin(), g.end(), x) != g.end(); done = 0; size_t c2 = 0; std::set<int> ks; for (int x : A) ks.insert(key(x)); for (; done < in.size(); ++done) { bool goes = !u || !ks.count(key(in[done])); if (goes && c2 == ni) break; c2 += goes; ks.insert(key(in[done])); } }
      for (size_t i = 0; i < done; ++i) if (!u || !has(k, key(in[i]))) A.push_back(in[i]); break; }
    case 9: case 10: case 11: case 12: case 13: if (!A.empty()) { int e = ord[k][rng.below(A.size())]; V exp = ord[k]; exp.erase(std::find(exp.begin(), exp.end(), e)); int w = rng.below(2); vh::op(w ? "C11 C16 C14 C19" : "C11 C16 C14", n + (w ? ".erase_and_dispose(iterator to " : ".erase(iterator to ") + S(e) + ")" + bs(k)); CIt it = ca.iterator_to((const E&)*pool[e]); if (w) a.erase_and_dispose(it, Disp{this}); else a.erase(it); rm(k, e); if (w) dchkset(V(1, e)); else relink(V(1, e)); CHK("C11 C20", traverse(k) == exp, "order after erase " + js(traverse(k)) + ", expected " + js(exp)); } break;
    case 14: case 15: { int p = rng.below(A.size() + 1), q = rng.below(A.size() + 1); if (rng.flip()) q = std::min<int>(p + rng.below(4), A.size()); if (p > q) std::swap(p, q); V x(ord[k].begin() + p, ord[k].begin() + q), exp = ord[k]; exp.erase(exp.begin() + p, exp.begin() + q); int w = rng.flip(); vh::op(w ? "C11 C16 C14 C19 C20" : "C11 C16 C14 C20", n + ".erase range [" + S(p) + "," + S(q) + ") of " + js(ord[k]) + bs(k)); CIt i = at(k, p), j = at(k, q); if (w) a.erase_and_dispose(i, j, Disp{this}); else a.erase(i, j); for (int y : x) rm(k, y); if (w) dchkset(x); else relink(x); CHK("C11 C20", traverse(k) == exp, "order after erase range " + js(traverse(k)) + ", expected " + js(exp)); break; }
    case 16: case 17: case 18: { int kk = rng.below(nkey); V x = withkey(k, kk), exp; for (int y : ord[k]) if (key(y) != kk) exp.push_back(y); int w = rng.below(4); arm(6); V g0; if (thr) g0 = traverse(k); E ke; ke.key = kk; ke.id = -1; vh::op(thr ? "C11 C16 C14 C17 C19" : w >= 2 ? "C11 C16 C14 C19" : "C11 C16 C14", n + ".erase(key " + S(kk) + ") variant " + S(w) + bs(k) + " throw " + S(vh::fuse)); size_t r = 0;
      try { r = w == 0 ? a.erase(ke) : w == 1 ? a.erase(kk, H, Q) : w == 2 ? a.erase_and_dispose(ke, Disp{this}) : a.erase_and_dispose(kk, H, Q, Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
      if (threw) { tg = "C17"; CHK("C17", disposed.empty()); CHK("C17", traverse(k) == g0, "erase(key) that threw changed the table"); } else { for (int y : x) rm(k, y); CHK("C11 C19", r == x.size(), "erase(key) returned " + S(r) + ", expected " + S(x.size())); if (w >= 2) dchkset(x); else relink(x); CHK("C11 C20", traverse(k) == exp, "order after erase(key)"); } break; }
    case 19: { if (rng.below(4)) break; V old = A; if (rng.flip()) { vh::op("C11 C16 C14", n + ".clear()"); a.clear(); A.clear(); relink(old); } else { vh::op("C11 C16 C14 C19", n + ".clear_and_dispose()"); a.clear_and_dispose(Disp{this}); A.clear(); dchkset(old); } break; }
    case 20: case 21: case 22: { tg = thr ? "C12 C17" : "C12"; doRehash(k, thr); break; }
    case 23: { tg = "C12"; // full_rehash with consistently changed keys
      int add_ = rng.below(3) * nkey; vh::op("C12 C16 C14", n + ".full_rehash() after adding " + S(add_) + " to every key" + bs(k)); bool lin = OV != 0; (void)lin; for (int i : A) pool[i]->key += add_; if (add_ == 0) arm(A.size() + 1); if (C::optimize_multikey || true) { try { a.full_rehash(); } catch (vh::Boom&) { threw = true; } } vh::fuse = -1; if (threw) afterRehashThrow(k); else if (add_) { V all; for (int i : A) all.push_back(i); chk("C12"); for (int i : all) pool[i]->key -= add_; a.full_rehash(); } if (threw) tg = "C17"; break; }
    case 24: case 25: case 26: case 27: if constexpr (K::inc) { int w = rng.below(3); tg = "C12";
        if (w < 2) { bool grow = rng.below(3) != 0; int times = 1 + rng.below(6); arm(8); vh::op(thr ? "C12 C16 C14 C17" : "C12 C16 C14", n + ".incremental_rehash(" + S(grow) + ") x" + S(times) + bs(k) + " split " + S(a.split_count()) + " throw " + S(vh::fuse)); for (int i = 0; i < times; ++i) { size_t s0 = a.split_count(); bool r = false; V so = traverse(k); try { r = a.incremental_rehash(grow); } catch (vh::Boom&) { threw = true; } if (threw) { vh::fuse = -1; tg = "C17"; CHK("C17", a.split_count() == s0, "incremental_rehash that threw moved the split mark"); break; } bool can = grow ? s0 < bc[k] : s0 > bc[k] / 2; CHK("C12", r == can, "incremental_rehash returned " + S(r)); CHK("C12", a.split_count() == (can ? (grow ? s0 + 1 : s0 - 1) : s0), "split_count after incremental_rehash"); } vh::fuse = -1; }
        else { size_t ob = bc[k], sp = a.split_count(); bool same = rng.flip(); size_t nb = rng.flip() ? ob * 2 : ob / 2; if (rng.below(6) == 0) nb = ob; if (nb == 0 || nb + OV > CAP) break; int nbuf = same ? buf[k] : newbuf(); bool ok = nb == ob * 2 ? sp >= ob : nb == ob / 2 ? sp <= nb : false; vh::op("C12 C16 C14", n + ".incremental_rehash(bucket_traits " + (same ? "same buffer, " : "new buffer, ") + S(nb) + ")" + bs(k) + " split " + S(sp)); bool r = a.incremental_rehash(BTr(bp(nbuf), ST(nb + OV))); CHK("C12", r == ok, "incremental_rehash(traits) returned " + S(r)); if (r) { if (!same) { freebuf(buf[k]); buf[k] = nbuf; dis[nbuf] = true; } bc[k] = nb; CHK("C12", a.split_count() == sp); } } } break;
    case 28: case 29: { if (pool.size() > 120) break; V old = A; bool mv = rng.flip(); thr = rng.flip(); arm(2 * B.size() + 1); size_t p0 = pool.size(); V so = traverse(o); vh::op(thr ? "C11 C16 C14 C17 C18 C19" : "C11 C16 C14 C18 C19", n + ".clone_from(" + (mv ? "move" : "copy") + ")" + bs(o) + " to" + bs(k) + " throw " + S(vh::fuse));
      try { if (mv) a.clone_from(std::move(b), CloneM{this}, Disp{this}); else a.clone_from((const C&)b, Clone{this}, Disp{this}); } catch (vh::Boom&) { threw = true; } vh::fuse = -1; CHK("C18", traverse(o) == so, "clone_from changed its source"); V nw; for (size_t i = p0; i < pool.size(); ++i) nw.push_back(i);
      A.clear(); ord[k].clear(); { V cl = cloned, bb = B; std::sort(cl.begin(), cl.end()); std::sort(bb.begin(), bb.end()); if (!threw) CHK("C18", cl == bb, "cloned " + js(cloned) + ", source " + js(bb)); else CHK("C18", std::adjacent_find(cl.begin(), cl.end()) == cl.end(), "element cloned twice"); }
      if (threw) { tg = "C17 C18"; V exp = old; exp.insert(exp.end(), nw.begin(), nw.end()); dchkset(exp, "C17 C18 C19"); relink(exp); hm[k] = a.hash_function().mode; et[k] = a.key_eq().tag; }
      else { tg = "C18"; A = nw; dchkset(old, "C18 C19"); if (!B.empty()) { CHK("C18", a.hash_function().mode == hm[o] && a.key_eq().tag == et[o], "clone_from did not copy the hash function / equality predicate"); hm[k] = hm[o]; et[k] = et[o]; } else { hm[k] = a.hash_function().mode; et[k] = a.key_eq().tag; } }
      break; }
    case 30: { tg = "C21"; vh::op("C11 C16 C14 C21", "swap"); if (rng.flip()) a.swap(b); else std::swap(a, b); A.swap(B); ord[k].swap(ord[o]); swapmeta(); break; }
    case 31: { tg = "C21"; if (rng.flip()) { vh::op("C11 C16 C14 C21", n + " = move(other)"); V ga = traverse(k); a = std::move(b); A.swap(B); swapmeta(); V gb = traverse(o); V x = gb, y = B; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) { CHK("C21", gb.empty()); relink(B); B.clear(); } }
      else { vh::op("C11 C16 C14 C21", n + " move constructed away and back"); typename std::aligned_storage<sizeof(C), alignof(C)>::type tmp; V g0 = traverse(k); C* t = new (&tmp) C(std::move(a)); V g; for (CIt i = t->cbegin(); i != t->cend() && g.size() <= pool.size(); ++i) g.push_back(i->id); CHK("C21", g == g0, "move constructed table traverses " + js(g)); CHK("C21 C16", (size_t)t->size() == A.size()); CHK("C21 C16", a.size() == 0 && a.empty()); CHK("C21", t->hash_function().mode == hm[k]); a.~C(); memset((void*)&st[k], 0xEE, sizeof(C)); c[k] = new (&st[k]) C(std::move(*t)); t->~C(); memset((void*)&tmp, 0xEE, sizeof tmp); }
      break; }
    case 32: case 33: case 34: { int kk = (int)rng.below(nkey + 2) - 1; V x = withkey(k, kk); bool con = rng.flip(), het = rng.flip(); E ke; ke.key = kk; ke.id = -1; arm(5); int w = rng.below(3); V g0 = traverse(k); vh::op(thr ? "C11 C17" : "C11", n + (w == 0 ? ".find" : w == 1 ? ".count" : ".equal_range") + "(key " + S(kk) + ")" + bs(k) + " throw " + S(vh::fuse));
      try { if (w == 0) { CIt r = con ? (het ? ca.find(kk, H, Q) : ca.find(ke)) : CIt(het ? a.find(kk, H, Q) : a.find(ke)); if (x.empty()) CHK("C11", r == ca.end(), "find of an absent key"); else CHK("C11", r != ca.end() && r->key == kk, "find(key " + S(kk) + ")"); }
        else if (w == 1) { size_t r = het ? ca.count(kk, H, Q) : ca.count(ke); CHK("C11", r == x.size(), "count returned " + S(r)); }
        else { CIt i, j; if (con) { auto r = het ? ca.equal_range(kk, H, Q) : ca.equal_range(ke); i = r.first; j = r.second; } else { auto r = het ? a.equal_range(kk, H, Q) : a.equal_range(ke); i = r.first; j = r.second; } vh::fuse = -1; V e; for (; i != j && e.size() <= A.size(); ++i) e.push_back(i->id); CHK("C11", e == x, "equal_range is " + js(e) + ", expected " + js(x)); }
        vh::fuse = -1; CHK("C11", traverse(k) == g0); CHK("C13 C11", (size_t)(het ? ca.bucket(kk, H) : ca.bucket(ke)) < bc[k], "bucket(key) out of range"); } catch (vh::Boom&) { vh::fuse = -1; tg = "C17"; CHK("C17", traverse(k) == g0); } break; }
    case 35: { std::multiset<int> x, y; for (int i : A) x.insert(key(i)); for (int i : B) y.insert(key(i)); vh::op("C11", "operator=="); bool r = a == b; CHK("C11", r == (x == y), "operator== returned " + S(r)); CHK("C11", (a != b) == !r); CHK("C11", a == a); break; }
    case 36: case 37: { if constexpr (K::autou) { int i = pool.empty() ? -1 : (int)rng.below(pool.size()); if (i < 0) break; tg = "C14 C11"; bool dst = rng.flip(); vh::op("C14 C11", std::string(dst ? "destroy" : "unlink") + " element " + S(i)); int q = key(i); if (dst) { pool[i]->~E(); remake(i, q); } else pool[i]->unl(); for (int x = 0; x < 2; ++x) m[x].erase(std::remove(m[x].begin(), m[x].end(), i), m[x].end()); } break; }
    case 38: case 39: { if (pool.size() > 100 || rng.below(3)) break; int cn = rng.below(25); vh::op("C11 C16", n + " burst of " + S(cn) + " insertions" + bs(k)); for (int i = 0; i < cn; ++i) { int e = add(rng.below(nkey)); if (u) { if (has(k, key(e))) continue; insU(a, *pool[e]); } else insE(a, *pool[e]); A.push_back(e); } break; }
    }
    chk(tg);
  }
  void swapmeta() { std::swap(buf[0], buf[1]); std::swap(bc[0], bc[1]); std::swap(hm[0], hm[1]); std::swap(et[0], et[1]); }
  void afterRehashThrow(int k) { V g = traverse(k); V keep, gone; for (int i : m[k]) (std::find(g.begin(), g.end(), i) != g.end() ? keep : gone).push_back(i); CHK("C17", keep.size() == g.size(), "after a rehash that threw the table holds a foreign element"); relink(gone); m[k] = keep; ord[k] = g; }
  void doRehash(int k, bool thr) { C& a = *c[k]; bool same = rng.flip(); size_t nb = cnt(); int nbuf = same ? buf[k] : newbuf(); vh::fuse = thr ? (long)rng.below(m[k].size() + 1) : -1; bool threw = false;
    vh::op(thr ? "C12 C16 C14 C17" : "C12 C16 C14", std::string(k ? "B" : "A") + ".rehash(" + (same ? "same buffer, " : "new buffer, ") + S(nb) + ")" + bs(k) + " throw " + S(vh::fuse));
    try { a.rehash(BTr(bp(nbuf), ST(nb + OV))); } catch (vh::Boom&) { threw = true; } vh::fuse = -1;
    if (threw) { afterRehashThrow(k); if (!same && a.bucket_pointer() == bp(nbuf)) same = true, freebuf(buf[k]), dis[nbuf] = true, buf[k] = nbuf; if (!same) memset(mem[nbuf], 0x77, sizeof(BT) * CAP); bc[k] = a.bucket_count(); }
    else { if (!same) { freebuf(buf[k]); buf[k] = nbuf; dis[nbuf] = true; } bc[k] = nb; } }
  void end() { vh::op("C14", "destroy containers"); for (int k = 0; k < 2; ++k) { c[k]->clear(); c[k]->~C(); m[k].clear(); } if (K::track) for (size_t i = 0; i < pool.size(); ++i) CHK("C14", !pool[i]->linked(), "element " + S(i) + " still linked after clear"); for (auto e : pool) { e->~E(); ::operator delete((void*)e); } for (char* p : mem) ::operator delete(p); }
};
template <class K> void runs(const char* name, int n) {
  if (vh::thorough) n *= 40;
  for (int i = 0; i < n && !vh::time_up(); ++i) { uint64_t s = vh::mix(vh::seed, i * 131 + std::hash<std::string>()(name));
    vh::history(std::string(name) + " #" + S(i), [&] { World<K>* w = new World<K>(s); vh::fuse = -1; w->setw(); int len = 1 + w->rng.below(i % 4 ? 16 : 80); w->chk(""); for (int j = 0; j < len; ++j) w->step(); w->end(); delete w; }); } }
template <bool B> using CT = bi::constant_time_size<B>;
typedef bi::link_mode<bi::safe_link> SL; typedef bi::link_mode<bi::normal_link> NL; typedef bi::link_mode<bi::auto_unlink> AL;
template <class... O> using UB = bi::unordered_set_base_hook<O...>; template <class... O> using UM = bi::unordered_set_member_hook<O...>;
typedef bi::store_hash<true> SH; typedef bi::optimize_multikey<true> OM;
template <class T, class... O> using Tb = bi::hashtable<T, bi::hash<Hsh>, bi::equal<Eql>, O...>; template <class T, class... O> using US = bi::unordered_set<T, bi::hash<Hsh>, bi::equal<Eql>, O...>; template <class T, class... O> using UMS = bi::unordered_multiset<T, bi::hash<Hsh>, bi::equal<Eql>, O...>;
template <class E, class H> using MH = bi::member_hook<E, H, &E::hk>;
typedef bi::power_2_buckets<true> P2; typedef bi::cache_begin<true> CB; typedef bi::compare_hash<true> CH; typedef bi::incremental<true> INC; typedef bi::linear_buckets<true> LIN; typedef bi::fastmod_buckets<true> FM;
int main(int argc, char** argv) {
  vh::init(argc, argv); int n = 3000;
#if PART < 0 || PART == 0
  { typedef BaseE<UB<SL>> E; runs<Cfg<Tb<E>, E, 0, 1, 0, 1, 0, 0>>("hashtable plain", n); }
  { typedef BaseE<UB<SL, SH, OM>> E; runs<Cfg<UMS<E, P2, CB, CH>, E, 2, 1, 0, 1, 1, 0>>("multiset store multikey pow2 cache", n); }
#endif
#if PART < 0 || PART == 1
  { typedef MemE<UM<SL, OM>> E; runs<Cfg<Tb<E, MH<E, UM<SL, OM>>, LIN, CB>, E, 0, 0, 0, 1, 0, 0>>("hashtable member multikey linear cache", n); }
  { typedef BaseE<UB<NL, SH>> E; runs<Cfg<US<E, CT<false>, FM>, E, 1, 0, 0, 0, 2, 0>>("set normal store fastmod", n); }
#endif
#if PART < 0 || PART == 2
  { typedef BaseE<UB<SL, OM>> E; runs<Cfg<Tb<E, INC, P2, CB>, E, 0, 1, 0, 1, 1, 1>>("hashtable multikey incremental cache", n); }
  { typedef BaseE<UB<AL, OM>> E; runs<Cfg<UMS<E, CT<false>>, E, 2, 1, 1, 0, 0, 0>>("multiset auto multikey", n); }
#endif
#if PART < 0 || PART == 3
  { typedef BaseE<UB<SL, SH>> E; runs<Cfg<Tb<E, INC, P2, LIN, bi::size_type<unsigned short>>, E, 0, 0, 0, 1, 1, 1>>("hashtable store incremental linear", n); }
  { typedef BaseE<bi::any_base_hook<>> E; runs<Cfg<UMS<E, bi::any_to_unordered_set_hook<bi::base_hook<bi::any_base_hook<>>>, FM>, E, 2, 1, 0, 1, 2, 0>>("multiset any fastmod", n); }
  { typedef MemE<UM<SL>> E; runs<Cfg<US<E, MH<E, UM<SL>>, CT<false>, LIN, P2>, E, 1, 0, 0, 0, 1, 0>>("set member linear pow2", n); }
  { typedef MemE<UM<AL>> E; runs<Cfg<US<E, MH<E, UM<AL>>, CT<false>, P2>, E, 1, 1, 1, 0, 1, 0>>("set member auto pow2", n); }
#endif
  return vh::done();
}

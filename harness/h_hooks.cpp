// C14/C15: hooks of every kind; representation mappings
#include <assert.h>
#include "vh.hpp"
static int g_dtor_assert = 0;
#define BOOST_INTRUSIVE_SAFE_HOOK_DESTRUCTOR_ASSERT(x) do { if (!(x)) ++g_dtor_assert; } while (0)
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/pointer_plus_bits.hpp>
using namespace boost::intrusive;
using namespace vh;
// ---------------------------------------------------------------- node representation
// every field of every node is independent; a shadow map is the oracle
template <class T> struct F { const char* n; std::function<uintptr_t(T*)> get; std::function<void(T*, uintptr_t)> set; bool ptr; std::vector<uintptr_t> dom; };
template <class Node> void fields(const char* nm, std::vector<F<Node>> fs) {
  for (int it = 0; it < (thorough ? 400 : 40); ++it) history(std::string("node fields ") + nm, [&] {
    Rng r(seed * 7919 + it); const int N = 4; alignas(16) static unsigned char raw[N][256];
    Node* nd[N]; for (int i = 0; i < N; ++i) nd[i] = reinterpret_cast<Node*>(raw[i]);
    for (auto& b : raw) for (auto& c : b) c = it % 3 == 0 ? 0 : it % 3 == 1 ? 0 : 0; 
    uintptr_t sh[N][8];
    for (int i = 0; i < N; ++i) for (size_t f = 0; f < fs.size(); ++f) { uintptr_t v = fs[f].ptr ? uintptr_t(nd[r.below(N)]) : fs[f].dom[r.below(fs[f].dom.size())]; fs[f].set(nd[i], v); sh[i][f] = v; }
    for (int k = 0; k < 200; ++k) {
      int i = r.below(N); size_t f = r.below(fs.size());
      uintptr_t v = fs[f].ptr ? (r.below(5) ? uintptr_t(nd[r.below(N)]) : r.flip() ? 0 : (uintptr_t(r.next()) & ~uintptr_t(alignof(Node) - 1))) : fs[f].dom[r.below(fs[f].dom.size())];
      op("C15", "set " + std::string(fs[f].n) + " of n" + S(i) + " to " + S((long long)v)); fs[f].set(nd[i], v); sh[i][f] = v;
      for (int j = 0; j < N; ++j) for (size_t g = 0; g < fs.size(); ++g) CHK("C15", fs[g].get(nd[j]) == sh[j][g], std::string("field ") + fs[g].n + " of n" + S(j));
      uint64_t h = k; for (int j = 0; j < N; ++j) for (size_t g = 0; g < fs.size(); ++g) h = mix(h, sh[j][g]); note_state(h);
    }
  });
}
#define PF(nt, g, s) F<typename nt::node>{#g, [](typename nt::node* n) { return uintptr_t(nt::g(n)); }, [](typename nt::node* n, uintptr_t v) { nt::s(n, (typename nt::node_ptr)v); }, true, {}}
#define VF(nt, g, s, ...) F<typename nt::node>{#g, [](typename nt::node* n) { return uintptr_t(nt::g(n)); }, [](typename nt::node* n, uintptr_t v) { nt::s(n, static_cast<decltype(nt::g(n))>(v)); }, false, {__VA_ARGS__}}
template <class NT> void f_list(const char* n) { fields<typename NT::node>(n, {PF(NT, get_next, set_next), PF(NT, get_previous, set_previous)}); }
template <class NT> void f_slist(const char* n) { fields<typename NT::node>(n, {PF(NT, get_next, set_next)}); }
template <class NT> void f_tree(const char* n) { fields<typename NT::node>(n, {PF(NT, get_parent, set_parent), PF(NT, get_left, set_left), PF(NT, get_right, set_right)}); }
template <class NT> void f_rb(const char* n) { CHK("C15", uintptr_t(NT::red()) != uintptr_t(NT::black())); fields<typename NT::node>(n, {PF(NT, get_parent, set_parent), PF(NT, get_left, set_left), PF(NT, get_right, set_right), VF(NT, get_color, set_color, uintptr_t(NT::red()), uintptr_t(NT::black()))}); }
template <class NT> void f_avl(const char* n) { CHK("C15", uintptr_t(NT::negative()) != uintptr_t(NT::zero()) && uintptr_t(NT::zero()) != uintptr_t(NT::positive()) && uintptr_t(NT::negative()) != uintptr_t(NT::positive()));
  fields<typename NT::node>(n, {PF(NT, get_parent, set_parent), PF(NT, get_left, set_left), PF(NT, get_right, set_right), VF(NT, get_balance, set_balance, uintptr_t(NT::negative()), uintptr_t(NT::zero()), uintptr_t(NT::positive()))}); }
#define HV 0, 1, 2, 5, 0x7fffffffu, 0x80000000u, 0xffffffffu, ~uintptr_t(0), uintptr_t(1) << 63, 0x123456789abcdef0u
// ---------------------------------------------------------------- element <-> node mapping
template <class VT, class T> void roundtrip(const char* nm) {
  history(std::string("value/node mapping ") + nm, [&] {
    static T arr[5]; const T* c = arr; std::set<const void*> nodes;
    for (int i = 0; i < 5; ++i) {
      op("C15", "map element " + S(i));
      auto n = VT::to_node_ptr(arr[i]);
      CHK("C15", VT::to_value_ptr(n) == &arr[i]);
      CHK("C15", VT::to_value_ptr(typename VT::const_node_ptr(n)) == c + i);
      CHK("C15", VT::to_node_ptr(c[i]) == typename VT::const_node_ptr(n));
      const char* a = reinterpret_cast<const char*>(&*n); const char* b = reinterpret_cast<const char*>(&arr[i]);
      CHK("C15", a >= b && a + sizeof(*n) <= b + sizeof(T), "the node lies inside the element");
      nodes.insert(a);
    }
    CHK("C15", nodes.size() == 5); note_state(mix(7, sizeof(T)));
  });
}
struct pad0 { long a[3]; virtual ~pad0() {} };
struct tagA; struct tagB;
struct Multi : pad0, list_base_hook<tag<tagA>>, set_base_hook<tag<tagA>, optimize_size<true>>, list_base_hook<tag<tagB>, link_mode<auto_unlink>>, slist_base_hook<>, avl_set_base_hook<optimize_size<true>>, bs_set_base_hook<>, unordered_set_base_hook<store_hash<true>, optimize_multikey<true>>, any_base_hook<> {
  int x; char c; list_member_hook<> m1; set_member_hook<> m2; char d[1000]; list_member_hook<> m3; any_member_hook<> m4; unordered_set_member_hook<> m5; bs_set_member_hook<link_mode<normal_link>> m6; slist_member_hook<> m7; avl_set_member_hook<> m8;
  struct Inner { int q; list_member_hook<> h; } in;
  bool operator<(const Multi& o) const { return x < o.x; }
};
struct Derived2 : pad0, Multi { int y; };
struct FHook { typedef list_member_hook<> hook_type; typedef hook_type* hook_ptr; typedef const hook_type* const_hook_ptr; typedef Multi value_type; typedef Multi* pointer; typedef const Multi* const_pointer;
  static hook_ptr to_hook_ptr(value_type& v) { return &v.in.h; } static const_hook_ptr to_hook_ptr(const value_type& v) { return &v.in.h; }
  static pointer to_value_ptr(hook_ptr n) { return get_parent_from_member<Multi>(get_parent_from_member<Multi::Inner>(n, &Multi::Inner::h), &Multi::in); }
  static const_pointer to_value_ptr(const_hook_ptr n) { return get_parent_from_member<Multi>(get_parent_from_member<Multi::Inner>(n, &Multi::Inner::h), &Multi::in); } };
struct PlainNode : list_node_traits<void*>::node {};
struct DerivElem : pad0, list_node<void*> { int v; };
struct TrivElem { TrivElem *n, *p; };
struct TrivTraits { typedef TrivElem node; typedef TrivElem* node_ptr; typedef const TrivElem* const_node_ptr; static node_ptr get_next(const_node_ptr n) { return n->n; } static void set_next(node_ptr n, node_ptr x) { n->n = x; } static node_ptr get_previous(const_node_ptr n) { return n->p; } static void set_previous(node_ptr n, node_ptr x) { n->p = x; } };
struct MemElem { char a; double b; list_node<void*> nd; int z; };
template <class P, std::size_t B> void ppb() {
  history("pointer_plus_bits", [&] {
    typedef pointer_plus_bits<P*, B> PP; Rng r(seed + B); P* v = 0; uintptr_t sp = 0; std::size_t sb = 0; PP::set_pointer(v, 0); PP::set_bits(v, 0);
    for (int i = 0; i < 2000; ++i) {
      if (r.flip()) { sp = r.next() & ~((uintptr_t(1) << B) - 1); op("C15", "set_pointer"); PP::set_pointer(v, (P*)sp); } else { sb = r.below(1u << B); op("C15", "set_bits " + S(sb)); PP::set_bits(v, sb); }
      CHK("C15", uintptr_t(PP::get_pointer(v)) == sp); CHK("C15", PP::get_bits(v) == sb); note_state(mix(sp, sb));
    }
  });
}
static void c15() {
  f_list<list_node_traits<void*>>("list"); f_slist<slist_node_traits<void*>>("slist"); f_tree<tree_node_traits<void*>>("tree");
  f_rb<rbtree_node_traits<void*, false>>("rb"); f_rb<rbtree_node_traits<void*, true>>("compact rb");
  f_avl<avltree_node_traits<void*, false>>("avl"); f_avl<avltree_node_traits<void*, true>>("compact avl");
  f_list<any_list_node_traits<void*>>("any list"); f_slist<any_slist_node_traits<void*>>("any slist"); f_tree<any_tree_node_traits<void*>>("any tree"); f_rb<any_rbtree_node_traits<void*>>("any rb"); f_avl<any_avltree_node_traits<void*>>("any avl");
  { typedef any_unordered_node_traits<void*> NT; fields<NT::node>("any unordered", {PF(NT, get_next, set_next), PF(NT, get_prev_in_group, set_prev_in_group), VF(NT, get_hash, set_hash, HV)}); }
  { typedef unordered_node_traits<void*, true, true> NT; fields<NT::node>("unordered hash+group", {PF(NT, get_next, set_next), PF(NT, get_prev_in_group, set_prev_in_group), VF(NT, get_hash, set_hash, HV)}); }
  { typedef unordered_node_traits<void*, true, false> NT; fields<NT::node>("unordered hash", {PF(NT, get_next, set_next), VF(NT, get_hash, set_hash, HV)}); }
  { typedef unordered_node_traits<void*, false, true> NT; fields<NT::node>("unordered group", {PF(NT, get_next, set_next), PF(NT, get_prev_in_group, set_prev_in_group)}); }
  ppb<int, 1>(); ppb<int, 2>(); ppb<long, 3>(); ppb<long, 1>(); ppb<rbtree_node_traits<void*, true>::node, 1>(); ppb<avltree_node_traits<void*, true>::node, 2>();
#define RT(C, T) roundtrip<typename C::value_traits, T>(#C)
  typedef list<Multi, base_hook<list_base_hook<tag<tagA>>>> L1; RT(L1, Multi); typedef list<Multi, base_hook<list_base_hook<tag<tagB>, link_mode<auto_unlink>>>, constant_time_size<false>> L2; RT(L2, Multi);
  typedef list<Derived2, base_hook<list_base_hook<tag<tagA>>>> L1d; RT(L1d, Derived2);
  typedef slist<Multi> S1; RT(S1, Multi); typedef set<Multi, base_hook<set_base_hook<tag<tagA>, optimize_size<true>>>> R1; RT(R1, Multi); typedef avl_set<Multi, base_hook<avl_set_base_hook<optimize_size<true>>>> A1; RT(A1, Multi); typedef bs_set<Multi> B1; RT(B1, Multi);
  typedef unordered_set<Multi, base_hook<unordered_set_base_hook<store_hash<true>, optimize_multikey<true>>>, equal<std::equal_to<Multi>>, boost::intrusive::hash<std::hash<int>>> U1; roundtrip<U1::value_traits, Multi>("U1");
  typedef list<Multi, any_to_list_hook<base_hook<any_base_hook<>>>> Y1; RT(Y1, Multi);
  typedef list<Multi, member_hook<Multi, list_member_hook<>, &Multi::m1>> M1; RT(M1, Multi); typedef set<Multi, member_hook<Multi, set_member_hook<>, &Multi::m2>> M2; RT(M2, Multi); typedef list<Multi, member_hook<Multi, list_member_hook<>, &Multi::m3>> M3; RT(M3, Multi);
  typedef member_hook<Multi, any_member_hook<>, &Multi::m4> AM; typedef slist<Multi, any_to_slist_hook<AM>> M4; RT(M4, Multi); typedef bs_set<Multi, member_hook<Multi, bs_set_member_hook<link_mode<normal_link>>, &Multi::m6>> M6; RT(M6, Multi);
  typedef slist<Multi, member_hook<Multi, slist_member_hook<>, &Multi::m7>> M7; RT(M7, Multi); typedef avl_set<Multi, member_hook<Multi, avl_set_member_hook<>, &Multi::m8>> M8; RT(M8, Multi);
  typedef list<Multi, function_hook<FHook>> Fn; RT(Fn, Multi);
  typedef derivation_value_traits<DerivElem, list_node_traits<void*>, normal_link> DV; roundtrip<DV, DerivElem>("derivation_value_traits");
  typedef trivial_value_traits<TrivTraits, normal_link> TV; roundtrip<TV, TrivElem>("trivial_value_traits");
  typedef member_value_traits<MemElem, list_node_traits<void*>, &MemElem::nd, normal_link> MV; roundtrip<MV, MemElem>("member_value_traits");
  history("parent_from_member", [&] { static Derived2 d; op("C15", "parent_from_member"); const Derived2& c = d;
    CHK("C15", get_parent_from_member<Multi>(&d.x, &Multi::x) == static_cast<Multi*>(&d)); CHK("C15", get_parent_from_member<Multi>(&c.c, &Multi::c) == static_cast<const Multi*>(&d));
    CHK("C15", (get_parent_from_member<Derived2>(&d.y, &Derived2::y) == &d)); CHK("C15", get_parent_from_member<Multi>(&d.d, &Multi::d) == static_cast<Multi*>(&d)); });
  // storing one hook's fields leaves the element's other hooks and members alone
  history("hooks of one element are independent", [&] { std::vector<Multi> v(6); for (int i = 0; i < 6; ++i) { v[i].x = i; memset(v[i].d, i + 1, 1000); v[i].c = 'x'; }
    L1 a; L2 b; S1 s; R1 r; A1 av; B1 bs; M1 m1; M2 m2; M3 m3; M4 m4; M6 m6; M7 m7; M8 m8; Fn fn; Y1 y;
    for (auto& e : v) { op("C15", "insert everywhere " + S(e.x)); a.push_back(e); b.push_back(e); s.push_front(e); r.insert(e); av.insert(e); bs.insert(e); m1.push_front(e); m2.insert(e); m3.push_back(e); m4.push_front(e); m6.insert(e); m7.push_front(e); m8.insert(e); fn.push_back(e); y.push_back(e); }
    auto all = [&](auto& c, bool rev, const char* n) { std::vector<int> got; for (auto& e : c) got.push_back(e.x); std::vector<int> want; for (int i = 0; i < 6; ++i) want.push_back(rev ? 5 - i : i); CHK("C15", got == want, n); };
    all(a, 0, "a"); all(b, 0, "b"); all(s, 1, "s"); all(r, 0, "r"); all(av, 0, "av"); all(bs, 0, "bs"); all(m1, 1, "m1"); all(m2, 0, "m2"); all(m3, 0, "m3"); all(m4, 1, "m4"); all(m6, 0, "m6"); all(m7, 1, "m7"); all(m8, 0, "m8"); all(fn, 0, "fn"); all(y, 0, "y");
    for (int i = 0; i < 6; ++i) { CHK("C15", v[i].x == i && v[i].c == 'x' && v[i].a[0] == v[i].a[0]); for (char q : v[i].d) CHK("C15", q == i + 1); }
    a.clear(); b.clear(); s.clear(); r.clear(); av.clear(); bs.clear(); m1.clear(); m2.clear(); m3.clear(); m4.clear(); m6.clear(); m7.clear(); m8.clear(); fn.clear(); y.clear(); });
}
// ---------------------------------------------------------------- hook truth
template <class Hook> struct E : Hook { int k; E(int x = 0) : k(x) {} friend bool operator<(const E& a, const E& b) { return a.k < b.k; } friend bool operator==(const E& a, const E& b) { return a.k == b.k; } friend std::size_t hash_value(const E& a) { return a.k; } friend bool priority_order(const E& a, const E& b) { return a.k % 7 < b.k % 7; } };
template <class Hook> struct EM { int pad; int k; Hook h; EM(int x = 0) : k(x) {} friend bool operator<(const EM& a, const EM& b) { return a.k < b.k; } friend bool operator==(const EM& a, const EM& b) { return a.k == b.k; } friend std::size_t hash_value(const EM& a) { return a.k; } friend bool priority_order(const EM& a, const EM& b) { return a.k % 7 < b.k % 7; } };
template <class H> H& hk(E<H>& e) { return e; }
template <class H> H& hk(EM<H>& e) { return e.h; }
template <class C> struct Mk { C c; };
template <class C, class T> auto ins(C& c, T& e, int) -> decltype(c.push_front(e), void()) { c.push_front(e); }
template <class C, class T> auto ins(C& c, T& e, long) -> decltype(c.insert(e), void()) { c.insert(e); }
template <class C> std::multiset<int> content(C& c) { std::multiset<int> r; int n = 0; for (auto& e : c) { r.insert(e.k); if (++n > 10000) break; } return r; }
// one container type: membership truth under random inserts/erases/clear/container destruction, hook copy/assign and element copies
template <class C, class T> void truth(const char* nm, bool autoul) {
  for (int it = 0; it < (thorough ? 120 : 12); ++it) history(std::string("hook truth ") + nm, [&] {
    if (time_up()) return;
    Rng r(seed * 31 + it); const int N = 3 + it % 9; std::vector<T*> el; for (int i = 0; i < N; ++i) el.push_back(new T(i)); std::vector<bool> in(N, false);
    C* c = new C; int dead = g_dtor_assert;
    auto ck = [&] { std::multiset<int> w; for (int i = 0; i < N; ++i) { CHK("C14", hk(*el[i]).is_linked() == in[i], "element " + S(i)); if (in[i]) w.insert(i); }
      CHK("C14", content(*c) == w); uint64_t h = 0; for (int i = 0; i < N; ++i) h = mix(h, in[i]); note_state(mix(h, N)); };
    for (int k = 0; k < 60; ++k) {
      int i = r.below(N); 
      switch (r.below(9)) {
        case 0: case 1: case 2: if (!in[i]) { op("C14", "insert " + S(i)); ins(*c, *el[i], 0); in[i] = true; } break;
        case 3: if (in[i]) { op("C14", "erase " + S(i)); c->erase(c->iterator_to(*el[i])); in[i] = false; } break;
        case 4: if (r.below(4) == 0) { op("C14", "clear"); c->clear(); std::fill(in.begin(), in.end(), false); } break;
        case 5: { op("C14", "copy element " + S(i)); T cp(*el[i]); CHK("C14", !hk(cp).is_linked()); T other(77); other = *el[i]; CHK("C14", !hk(other).is_linked()); CHK("C14", g_dtor_assert == dead); break; }
        case 6: { op("C14", "assign onto element " + S(i)); T tmp(*el[i]); *el[i] = tmp; break; }
        case 7: if (r.below(4) == 0) { op("C14", "destroy container"); delete c; std::fill(in.begin(), in.end(), false); c = new C; } break;
        case 8: if (r.below(3) == 0) { op("C14", "swap with empty"); C d; c->swap(d); for (int j = 0; j < N; ++j) CHK("C14", hk(*el[j]).is_linked() == in[j]); C m(std::move(d)); c->swap(m); } break;
      }
      ck();
    }
    op("C14", "destroy container"); delete c; for (auto e : el) CHK("C14", !hk(*e).is_linked());
    for (auto e : el) delete e;
    CHK("C14", g_dtor_assert == dead);
  });
}
template <class T, class C> void autou(const char* nm) {
  for (int it = 0; it < (thorough ? 120 : 12); ++it) history(std::string("auto-unlink ") + nm, [&] {
    Rng r(seed * 37 + it); const int N = 3 + it % 9; std::vector<T*> el; for (int i = 0; i < N; ++i) el.push_back(new T(i)); std::vector<bool> in(N, false); C c, c2; std::vector<int> who(N, 0);
    for (int k = 0; k < 60; ++k) {
      int i = r.below(N);
      switch (r.below(6)) {
        case 0: case 1: case 2: if (!in[i]) { op("C14", "insert " + S(i)); who[i] = r.below(2); ins(who[i] ? c2 : c, *el[i], 0); in[i] = true; } break;
        case 3: op("C14", "unlink " + S(i)); hk(*el[i]).unlink(); in[i] = false; break;
        case 4: op("C14", "destroy and recreate " + S(i)); delete el[i]; el[i] = new T(i); in[i] = false; break;
        case 5: if (in[i]) { op("C14", "erase " + S(i)); C& q = who[i] ? c2 : c; q.erase(q.iterator_to(*el[i])); in[i] = false; } break;
      }
      std::multiset<int> w, w2; for (int j = 0; j < N; ++j) { CHK("C14", hk(*el[j]).is_linked() == in[j], "element " + S(j)); if (in[j]) (who[j] ? w2 : w).insert(j); }
      CHK("C14", content(c) == w); CHK("C14", content(c2) == w2); CHK("C14", c.size() == w.size() && c.empty() == w.empty());
      uint64_t h = 1; for (int j = 0; j < N; ++j) h = mix(h, in[j] ? 1 + who[j] : 0); note_state(mix(h, N));
    }
    op("C14", "destroy all elements"); for (auto e : el) delete e; CHK("C14", c.empty() && c2.empty());
  });
}
struct AE : any_base_hook<> { friend bool operator>(const AE& a, const AE& b) { return b < a; } int k; any_member_hook<> mh; AE(int x = 0) : k(x) {} friend bool operator<(const AE& a, const AE& b) { return a.k < b.k; } friend bool operator==(const AE& a, const AE& b) { return a.k == b.k; } friend std::size_t hash_value(const AE& a) { return a.k; } };
template <class H> struct anyops; 
static void any_mix() {
  typedef any_to_list_hook<base_hook<any_base_hook<>>> HL; typedef any_to_slist_hook<base_hook<any_base_hook<>>> HS; typedef any_to_set_hook<base_hook<any_base_hook<>>> HR; typedef any_to_avl_set_hook<base_hook<any_base_hook<>>> HA; typedef any_to_bs_set_hook<base_hook<any_base_hook<>>> HB; typedef any_to_unordered_set_hook<base_hook<any_base_hook<>>> HU;
  typedef member_hook<AE, any_member_hook<>, &AE::mh> MH;
  for (int it = 0; it < (thorough ? 200 : 24); ++it) history("any hook moves between container kinds", [&] {
    Rng r(seed * 41 + it); const int N = 8; std::vector<AE*> el; for (int i = 0; i < N; ++i) el.push_back(new AE(i));
    list<AE, HL> l; slist<AE, HS> s; set<AE, HR> rb; avl_set<AE, HA> av; bs_set<AE, HB> bs; treap_set<AE, HB, priority<std::greater<AE>>> tr; typedef unordered_set<AE, HU> US; US::bucket_type bk[4]; US us(US::bucket_traits(bk, 4));
    list<AE, any_to_list_hook<MH>> ml; set<AE, any_to_set_hook<MH>> ms; slist<AE, any_to_slist_hook<MH>> msl;
    std::vector<int> w(N, -1), mw(N, -1);
    for (int k = 0; k < 80; ++k) {
      int i = r.below(N); AE& e = *el[i];
      if (r.flip()) { op("C14 C15", "base hook of " + S(i));
        switch (w[i]) { case 0: l.erase(l.iterator_to(e)); break; case 1: s.erase(s.iterator_to(e)); break; case 2: rb.erase(rb.iterator_to(e)); break; case 3: av.erase(av.iterator_to(e)); break; case 4: bs.erase(bs.iterator_to(e)); break; case 5: tr.erase(tr.iterator_to(e)); break; case 6: us.erase(us.iterator_to(e)); break; }
        CHK("C14", !e.any_base_hook<>::is_linked()); w[i] = int(r.below(8)) - 1; op("C14 C15", "to kind " + S(w[i]));
        switch (w[i]) { case 0: l.push_back(e); break; case 1: s.push_front(e); break; case 2: rb.insert(e); break; case 3: av.insert(e); break; case 4: bs.insert(e); break; case 5: tr.insert(e); break; case 6: us.insert(e); break; }
      } else { op("C14 C15", "member hook of " + S(i));
        switch (mw[i]) { case 0: ml.erase(ml.iterator_to(e)); break; case 1: ms.erase(ms.iterator_to(e)); break; case 2: msl.erase(msl.iterator_to(e)); break; }
        CHK("C14", !e.mh.is_linked()); mw[i] = int(r.below(4)) - 1; op("C14 C15", "to kind " + S(mw[i]));
        switch (mw[i]) { case 0: ml.push_front(e); break; case 1: ms.insert(e); break; case 2: msl.push_front(e); break; }
      }
      auto is = [&](std::vector<int>& v, int kk) { std::multiset<int> q; for (int j = 0; j < N; ++j) if (v[j] == kk) q.insert(j); return q; };
      const char* T = "C14 C15";
      CHK(T, content(l) == is(w, 0)); CHK(T, content(s) == is(w, 1)); CHK(T, content(rb) == is(w, 2)); CHK(T, content(av) == is(w, 3)); CHK(T, content(bs) == is(w, 4)); CHK(T, content(tr) == is(w, 5)); CHK(T, content(us) == is(w, 6));
      CHK(T, content(ml) == is(mw, 0)); CHK(T, content(ms) == is(mw, 1)); CHK(T, content(msl) == is(mw, 2));
      for (int j = 0; j < N; ++j) { CHK("C14", el[j]->any_base_hook<>::is_linked() == (w[j] >= 0)); CHK("C14", el[j]->mh.is_linked() == (mw[j] >= 0)); }
      uint64_t h = 3; for (int j = 0; j < N; ++j) h = mix(h, 8 * w[j] + mw[j]); note_state(h);
    }
    op("C14", "clear all"); l.clear(); s.clear(); rb.clear(); av.clear(); bs.clear(); tr.clear(); us.clear(); ml.clear(); ms.clear(); msl.clear();
    for (int j = 0; j < N; ++j) { CHK("C14", !el[j]->any_base_hook<>::is_linked()); CHK("C14", !el[j]->mh.is_linked()); delete el[j]; }
  });
}
// containers whose default constructor needs buckets
template <class H, bool Pow, bool Inc> struct UC {
  typedef unordered_multiset<H, power_2_buckets<Pow>, incremental<Inc>, constant_time_size<false>> US; typename US::bucket_type bk[8]; US us;
  UC() : us(typename US::bucket_traits(bk, 8)) {} ~UC() {}
};
template <class C> struct UW : C { using C::C; };
template <class T, class... O> struct UB0 { typename unordered_multiset<T, O...>::bucket_type bk[8]; };
template <class T, class... O> struct UBx : UB0<T, O...>, unordered_multiset<T, O...> { typedef unordered_multiset<T, O...> B; UBx() : B(typename B::bucket_traits(this->bk, 8)) {} };
template <class C, class T> void swapn(const char* nm) { // hook.swap_nodes
  for (int it = 0; it < 10; ++it) history(std::string("hook swap_nodes ") + nm, [&] { Rng r(seed * 43 + it); const int N = 2 + it % 5; std::vector<T*> el; for (int i = 0; i < N + 2; ++i) el.push_back(new T(i)); C c; std::vector<int> m; for (int i = 0; i < N; ++i) { c.push_back(*el[i]); m.push_back(i); }
    for (int k = 0; k < 12; ++k) { int i = r.below(N + 2), j = r.below(N + 2); if (i == j) continue; op("C14", "swap_nodes " + S(i) + "," + S(j)); hk(*el[i]).swap_nodes(hk(*el[j])); for (auto& x : m) x = x == i ? j : x == j ? i : x;
      std::vector<int> g; for (auto& e : c) { g.push_back(e.k); if (g.size() > 100) break; } CHK("C14", g == m); std::vector<int> rv; for (auto q = c.rbegin(); q != c.rend(); ++q) { rv.push_back(q->k); if (rv.size() > 100) break; } std::reverse(rv.begin(), rv.end()); CHK("C14", rv == m); for (int q = 0; q < N + 2; ++q) CHK("C14", hk(*el[q]).is_linked() == (std::find(m.begin(), m.end(), q) != m.end())); }
    c.clear(); for (auto e : el) delete e; });
}
// destroying a linked safe-link hook is reported by the library's assertion, an unlinked one is not
template <class C, class T> void dtor_assert(const char* nm) { history(std::string("safe-link destructor ") + nm, [&] { C c; int b = g_dtor_assert; { T t(1); op("C14", "destroy unlinked"); } CHK("C14", g_dtor_assert == b); C* d = new C; { T* t = new T(1); T* u = new T(2); ins(*d, *u, 0); ins(*d, *t, 0); op("C14", "destroy linked"); t->~T(); } CHK("C14", g_dtor_assert == b + 1); }); }
template <class C, class T> void fin(const char* nm) { history(std::string("finding ") + nm, [&] { C* c = new C; T* t = new T(1); op("C14", "insert one element; is_linked"); ins(*c, *t, 0); CHK("C14", hk(*t).is_linked()); }); }
#define TR(C, T) truth<C, T>(#C, false)
static void c14() {
#define TH(NM, HB, HM, CONT, ...) { typedef E<HB<>> Ta; typedef CONT<Ta, ##__VA_ARGS__> Ca; truth<Ca, Ta>(NM " base", false); dtor_assert<Ca, Ta>(NM " base"); typedef EM<HM<>> Tb; typedef CONT<Tb, member_hook<Tb, HM<>, &Tb::h>, ##__VA_ARGS__> Cb; truth<Cb, Tb>(NM " member", false); \
    typedef E<HB<link_mode<auto_unlink>>> Tc; typedef CONT<Tc, base_hook<HB<link_mode<auto_unlink>>>, constant_time_size<false>, ##__VA_ARGS__> Cc; truth<Cc, Tc>(NM " auto base", true); autou<Tc, Cc>(NM " base"); \
    typedef EM<HM<link_mode<auto_unlink>>> Td; typedef CONT<Td, member_hook<Td, HM<link_mode<auto_unlink>>, &Td::h>, constant_time_size<false>, ##__VA_ARGS__> Cd; autou<Td, Cd>(NM " member"); }
#define TN(NM, HB, HM, CONT, ...) { typedef E<HB<>> Ta; typedef CONT<Ta, ##__VA_ARGS__> Ca; truth<Ca, Ta>(NM " base", false); dtor_assert<Ca, Ta>(NM " base"); typedef EM<HM<>> Tb; typedef CONT<Tb, member_hook<Tb, HM<>, &Tb::h>, ##__VA_ARGS__> Cb; truth<Cb, Tb>(NM " member", false); }
  TH("list", list_base_hook, list_member_hook, list) TH("slist", slist_base_hook, slist_member_hook, slist) TH("slist cache_last", slist_base_hook, slist_member_hook, slist, cache_last<false>)
  TN("slist cached", slist_base_hook, slist_member_hook, slist, cache_last<true>)
  TH("set", set_base_hook, set_member_hook, set) TH("multiset", set_base_hook, set_member_hook, multiset) TH("avl_set", avl_set_base_hook, avl_set_member_hook, avl_set) TH("bs_set", bs_set_base_hook, bs_set_member_hook, bs_set) TH("splay_set", bs_set_base_hook, bs_set_member_hook, splay_set)
  TN("sg_set", bs_set_base_hook, bs_set_member_hook, sg_set) TN("treap_set", bs_set_base_hook, bs_set_member_hook, treap_set)
  TH("unordered", unordered_set_base_hook, unordered_set_member_hook, UBx)
  TH("unordered pow2", unordered_set_base_hook, unordered_set_member_hook, UBx, power_2_buckets<true>)
  { typedef E<unordered_set_base_hook<store_hash<true>, optimize_multikey<true>>> T; typedef UBx<T, base_hook<unordered_set_base_hook<store_hash<true>, optimize_multikey<true>>>> C; truth<C, T>("unordered multikey", false); }
  { typedef unordered_set_base_hook<link_mode<auto_unlink>, optimize_multikey<true>> HK; typedef E<HK> T; typedef UBx<T, base_hook<HK>, constant_time_size<false>> C; truth<C, T>("unordered multikey auto", true); autou<T, C>("unordered multikey"); }
  { typedef set_base_hook<optimize_size<true>, link_mode<auto_unlink>> HK; typedef E<HK> T; typedef multiset<T, base_hook<HK>, constant_time_size<false>> C; autou<T, C>("compact set"); }
  { typedef avl_set_base_hook<optimize_size<true>, link_mode<auto_unlink>> HK; typedef E<HK> T; typedef avl_multiset<T, base_hook<HK>, constant_time_size<false>> C; autou<T, C>("compact avl"); }
  { typedef E<list_base_hook<>> T; swapn<list<T>, T>("list"); }
  any_mix();
}
template <class T, class... O> struct LB0 { typename unordered_multiset<T, O...>::bucket_type bk[8]; };
int main(int argc, char** argv) {
  init(argc, argv);
  if (only_case.find("finding") == 0) {
    { typedef E<slist_base_hook<>> T; typedef slist<T, linear<true>> C; fin<C, T>("linear slist"); }
    { typedef E<unordered_set_base_hook<>> T; typedef UBx<T, linear_buckets<true>> C; fin<C, T>("linear_buckets"); }
    return done();
  }
  if (prop == "C15") c15();
  if (prop == "C14") c14();
  if (prop == "C15") any_mix();
  return done();
}

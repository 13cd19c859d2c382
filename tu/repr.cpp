// C15: node traits, pointer_plus_bits, value traits: the real accessors, one extern "C" entry per accessor
#include "vcommon.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <boost/intrusive/pointer_plus_bits.hpp>
#include <boost/intrusive/pointer_traits.hpp>
namespace bi = boost::intrusive;
typedef std::size_t sz;
extern "C" {
#define NODE(N, ...) typedef __VA_ARGS__ N##_t; sz v_##N##_size() { return sizeof(N##_t::node); }
#define FLDP(N, F) void v_##N##_set_##F(N##_t::node* n, N##_t::node* v) { N##_t::set_##F(n, v); } N##_t::node* v_##N##_get_##F(N##_t::node* n) { N##_t::const_node_ptr c = n; return N##_t::get_##F(c); }
#define FLDE(N, F, T) void v_##N##_set_##F(N##_t::node* n, int v) { N##_t::set_##F(n, N##_t::T(v)); } int v_##N##_get_##F(N##_t::node* n) { N##_t::const_node_ptr c = n; return int(N##_t::get_##F(c)); }
#define FLDZ(N, F) void v_##N##_set_##F(N##_t::node* n, sz v) { N##_t::set_##F(n, v); } sz v_##N##_get_##F(N##_t::node* n) { N##_t::const_node_ptr c = n; return N##_t::get_##F(c); }
NODE(list, bi::list_node_traits<void*>) FLDP(list, next) FLDP(list, previous)
NODE(slist, bi::slist_node_traits<void*>) FLDP(slist, next)
NODE(tree, bi::tree_node_traits<void*>) FLDP(tree, parent) FLDP(tree, left) FLDP(tree, right)
NODE(rb, bi::rbtree_node_traits<void*, false>) FLDP(rb, parent) FLDP(rb, left) FLDP(rb, right) FLDE(rb, color, color)
NODE(rbc, bi::rbtree_node_traits<void*, true>) FLDP(rbc, parent) FLDP(rbc, left) FLDP(rbc, right) FLDE(rbc, color, color)
NODE(avl, bi::avltree_node_traits<void*, false>) FLDP(avl, parent) FLDP(avl, left) FLDP(avl, right) FLDE(avl, balance, balance)
NODE(avlc, bi::avltree_node_traits<void*, true>) FLDP(avlc, parent) FLDP(avlc, left) FLDP(avlc, right) FLDE(avlc, balance, balance)
NODE(un, bi::unordered_node_traits<void*, false, false>) FLDP(un, next)
NODE(unh, bi::unordered_node_traits<void*, true, false>) FLDP(unh, next) FLDZ(unh, hash)
NODE(ung, bi::unordered_node_traits<void*, false, true>) FLDP(ung, next) FLDP(ung, prev_in_group)
NODE(unhg, bi::unordered_node_traits<void*, true, true>) FLDP(unhg, next) FLDP(unhg, prev_in_group) FLDZ(unhg, hash)
NODE(uga, bi::unordered_group_adapter<bi::unordered_node_traits<void*, true, true> >) FLDP(uga, next)
NODE(anl, bi::any_list_node_traits<void*>) FLDP(anl, next) FLDP(anl, previous)
NODE(ans, bi::any_slist_node_traits<void*>) FLDP(ans, next)
NODE(anu, bi::any_unordered_node_traits<void*>) FLDP(anu, next) FLDP(anu, prev_in_group) FLDZ(anu, hash)
NODE(anr, bi::any_rbtree_node_traits<void*>) FLDP(anr, parent) FLDP(anr, left) FLDP(anr, right) FLDE(anr, color, color)
NODE(ana, bi::any_avltree_node_traits<void*>) FLDP(ana, parent) FLDP(ana, left) FLDP(ana, right) FLDE(ana, balance, balance)
NODE(ant, bi::any_tree_node_traits<void*>) FLDP(ant, parent) FLDP(ant, left) FLDP(ant, right)
// the constants the algorithms read back
int v_rb_black() { return int(rb_t::black()); } int v_rb_red() { return int(rb_t::red()); }
int v_rbc_black() { return int(rbc_t::black()); } int v_rbc_red() { return int(rbc_t::red()); }
int v_anr_black() { return int(anr_t::black()); } int v_anr_red() { return int(anr_t::red()); }
int v_avl_negative() { return int(avl_t::negative()); } int v_avl_zero() { return int(avl_t::zero()); } int v_avl_positive() { return int(avl_t::positive()); }
int v_avlc_negative() { return int(avlc_t::negative()); } int v_avlc_zero() { return int(avlc_t::zero()); } int v_avlc_positive() { return int(avlc_t::positive()); }
int v_ana_negative() { return int(ana_t::negative()); } int v_ana_zero() { return int(ana_t::zero()); } int v_ana_positive() { return int(ana_t::positive()); }
// pointer_plus_bits
#define PPB(N) typedef bi::pointer_plus_bits<long*, N> ppb##N; \
 long* v_ppb##N##_get_ptr(long** n) { return ppb##N::get_pointer(*n); } sz v_ppb##N##_get_bits(long** n) { return ppb##N::get_bits(*n); } \
 void v_ppb##N##_set_ptr(long** n, long* p) { ppb##N::set_pointer(*n, p); } void v_ppb##N##_set_bits(long** n, sz b) { ppb##N::set_bits(*n, b); }
PPB(1) PPB(2) PPB(3)
// value traits
struct T1; struct T2;
typedef bi::list_base_hook<> LH; typedef bi::list_base_hook<bi::tag<T1> > LH1;
typedef bi::slist_base_hook<bi::tag<T1> > SH; typedef bi::set_base_hook<bi::tag<T1>, bi::optimize_size<true> > RH; typedef bi::set_base_hook<bi::tag<T2>, bi::link_mode<bi::auto_unlink> > RH2;
typedef bi::avl_set_base_hook<bi::tag<T1> > AH; typedef bi::bs_set_base_hook<bi::tag<T1> > BH; typedef bi::unordered_set_base_hook<bi::tag<T1>, bi::store_hash<true> > UH;
typedef bi::any_base_hook<> NH;
struct Pad { char c[5]; };
struct Poly { virtual ~Poly(); int x; };
struct MV; struct FV; struct HF;
struct BV : Pad, LH, SH, Poly, RH, RH2, AH, LH1, BH, UH, NH { char tail; bool operator<(const BV& o) const; };
struct MV : Pad { char a; bi::list_member_hook<> l; char b; bi::set_member_hook<bi::optimize_size<true> > r; bi::set_member_hook<> r2; short s; bi::unordered_set_member_hook<bi::store_hash<true> > u; bi::slist_member_hook<> sl; bi::any_member_hook<> n; bi::avl_set_member_hook<> av; bi::bs_set_member_hook<> bs; bi::list_node<void*> raw; };
struct FV { char pad[11]; bi::list_member_hook<> arr[3]; };
struct HF { typedef bi::list_member_hook<> hook_type; typedef hook_type* hook_ptr; typedef const hook_type* const_hook_ptr; typedef FV value_type; typedef value_type* pointer; typedef const value_type* const_pointer;
  static hook_ptr to_hook_ptr(value_type& v) { return &v.arr[1]; } static const_hook_ptr to_hook_ptr(const value_type& v) { return &v.arr[1]; }
  static pointer to_value_ptr(hook_ptr n) { return (pointer)((char*)(n - 1) - offsetof(FV, arr)); } static const_pointer to_value_ptr(const_hook_ptr n) { return (const_pointer)((const char*)(n - 1) - offsetof(FV, arr)); } };
struct DV : Poly, bi::slist_node<void*> { int k; };
#define VT(N, V, ...) typedef __VA_ARGS__ N##_vt; sz v_##N##_vsize() { return sizeof(V); } sz v_##N##_nsize() { return sizeof(N##_vt::node_traits::node); } \
 N##_vt::node_traits::node* v_##N##_to_node(V* p) { return N##_vt::to_node_ptr(*p); } const N##_vt::node_traits::node* v_##N##_cto_node(const V* p) { return N##_vt::to_node_ptr(*p); } \
 V* v_##N##_to_value(N##_vt::node_traits::node* n) { N##_vt::node_traits::node_ptr x = n; return N##_vt::to_value_ptr(x); } const V* v_##N##_cto_value(const N##_vt::node_traits::node* n) { N##_vt::node_traits::const_node_ptr x = n; return N##_vt::to_value_ptr(x); }
VT(b_list, BV, bi::list<BV, bi::base_hook<LH> >::value_traits)
VT(b_list1, BV, bi::list<BV, bi::base_hook<LH1> >::value_traits)
VT(b_slist, BV, bi::slist<BV, bi::base_hook<SH> >::value_traits)
VT(b_set, BV, bi::set<BV, bi::base_hook<RH> >::value_traits)
VT(b_set2, BV, bi::set<BV, bi::base_hook<RH2>, bi::constant_time_size<false> >::value_traits)
VT(b_avl, BV, bi::avl_set<BV, bi::base_hook<AH> >::value_traits)
VT(b_bs, BV, bi::bs_set<BV, bi::base_hook<BH> >::value_traits)
VT(b_sg, BV, bi::sg_set<BV, bi::base_hook<BH> >::value_traits)
VT(b_splay, BV, bi::splay_set<BV, bi::base_hook<BH> >::value_traits)
VT(b_treap, BV, bi::treap_set<BV, bi::base_hook<BH> >::value_traits)
VT(b_uset, BV, bi::unordered_set<BV, bi::base_hook<UH> >::value_traits)
VT(b_anyl, BV, bi::list<BV, bi::any_to_list_hook<bi::base_hook<NH> > >::value_traits)
VT(b_anys, BV, bi::slist<BV, bi::any_to_slist_hook<bi::base_hook<NH> > >::value_traits)
VT(b_anyr, BV, bi::set<BV, bi::any_to_set_hook<bi::base_hook<NH> > >::value_traits)
VT(b_anyu, BV, bi::unordered_set<BV, bi::any_to_unordered_set_hook<bi::base_hook<NH> > >::value_traits)
#define MH(T, F) bi::member_hook<MV, T, &MV::F>
VT(m_list, MV, bi::list<MV, MH(bi::list_member_hook<>, l) >::value_traits)
VT(m_set, MV, bi::set<MV, bi::member_hook<MV, bi::set_member_hook<bi::optimize_size<true> >, &MV::r> >::value_traits)
VT(m_set2, MV, bi::set<MV, MH(bi::set_member_hook<>, r2) >::value_traits)
VT(m_uset, MV, bi::unordered_set<MV, bi::member_hook<MV, bi::unordered_set_member_hook<bi::store_hash<true> >, &MV::u> >::value_traits)
VT(m_slist, MV, bi::slist<MV, MH(bi::slist_member_hook<>, sl) >::value_traits)
VT(m_anyl, MV, bi::list<MV, bi::any_to_list_hook<MH(bi::any_member_hook<>, n)> >::value_traits)
VT(m_avl, MV, bi::avl_set<MV, MH(bi::avl_set_member_hook<>, av) >::value_traits)
VT(m_bs, MV, bi::bs_set<MV, MH(bi::bs_set_member_hook<>, bs) >::value_traits)
VT(f_list, FV, bi::list<FV, bi::function_hook<HF> >::value_traits)
VT(d_slist, DV, bi::derivation_value_traits<DV, bi::slist_node_traits<void*> >)
VT(mv_list, MV, bi::member_value_traits<MV, bi::list_node_traits<void*>, &MV::raw, bi::safe_link>)
VT(t_list, bi::list_node<void*>, bi::trivial_value_traits<bi::list_node_traits<void*> >)
// get_parent_from_member, through any member address and any pointer-to-member
MV* v_gpm_a(char* m) { return bi::get_parent_from_member(m, &MV::a); }
MV* v_gpm_s(short* m) { return bi::get_parent_from_member(m, &MV::s); }
const MV* v_gpm_cs(const short* m) { return bi::get_parent_from_member(m, &MV::s); }
char* v_mem_a(MV* p) { return &p->a; }
short* v_mem_s(MV* p) { return &p->s; }
sz v_pd_off(void* p) { return (sz)bi::pointer_traits<long*>::static_cast_from((void*)p); }
}

#include "treent.hpp"
#include <boost/intrusive/bstree_algorithms.hpp>
#include <boost/intrusive/rbtree_algorithms.hpp>
#include <boost/intrusive/avltree_algorithms.hpp>
using namespace boost::intrusive;
#ifndef ALGO
#define ALGO bstree_algorithms
#endif
typedef ALGO<NT> A;
typedef bstree_algorithms<NT> BA;
typedef std::size_t sz;
extern "C" {
NP v_next_node(NP n){return A::next_node(n);}
NP v_prev_node(NP n){return A::prev_node(n);}
NP v_minimum(NP n){return A::minimum(n);}
NP v_maximum(NP n){return A::maximum(n);}
NP v_get_header(CNP n){return A::get_header(n);}
bool v_is_header(CNP n){return A::is_header(n);}
NP v_begin_node(CNP h){return A::begin_node(h);}
NP v_end_node(CNP h){return A::end_node(h);}
NP v_root_node(CNP h){return A::root_node(h);}
bool v_unique(CNP n){return A::unique(n);}
void v_init(NP n){A::init(n);}
bool v_inited(CNP n){return A::inited(n);}
void v_init_header(NP n){A::init_header(n);}
sz v_size(CNP h){return A::size(h);}
sz v_depth(CNP n){return A::depth(n);}
NP v_lower_bound(CNP h,const Key&k){return A::lower_bound(h,k,Comp());}
NP v_upper_bound(CNP h,const Key&k){return A::upper_bound(h,k,Comp());}
NP v_find(CNP h,const Key&k){return A::find(h,k,Comp());}
sz v_count(CNP h,const Key&k){return A::count(h,k,Comp());}
void v_equal_range(CNP h,const Key&k,NP*a,NP*b){std::pair<NP,NP> r=A::equal_range(h,k,Comp());*a=r.first;*b=r.second;}
void v_lower_bound_range(CNP h,const Key&k,NP*a,NP*b){std::pair<NP,NP> r=BA::lower_bound_range(h,k,Comp());*a=r.first;*b=r.second;}
void v_bounded_range(CNP h,const Key&k,const Key&l,bool lc,bool rc,NP*a,NP*b){std::pair<NP,NP> r=A::bounded_range(h,k,l,Comp(),lc,rc);*a=r.first;*b=r.second;}
void v_insert_unique_check(CNP h,const Key&k,NP*a,bool*b,bool*left,NP*node){A::insert_commit_data d; std::pair<NP,bool> r=A::insert_unique_check(h,k,Comp(),d);*a=r.first;*b=r.second; if(r.second){*left=d.link_left;*node=d.node;}}
void v_insert_unique_check_hint(CNP h,NP hint,const Key&k,NP*a,bool*b,bool*left,NP*node){A::insert_commit_data d; std::pair<NP,bool> r=A::insert_unique_check(h,hint,k,Comp(),d);*a=r.first;*b=r.second; if(r.second){*left=d.link_left;*node=d.node;}}
void v_insert_unique_commit(NP h,NP n,bool left,NP node){A::insert_commit_data d; d.link_left=left; d.node=node; A::insert_unique_commit(h,n,d);}
NP v_insert_equal(NP h,NP hint,NP n){return A::insert_equal(h,hint,n,Comp());}
NP v_insert_equal_upper_bound(NP h,NP n){return A::insert_equal_upper_bound(h,n,Comp());}
NP v_insert_equal_lower_bound(NP h,NP n){return A::insert_equal_lower_bound(h,n,Comp());}
NP v_insert_before(NP h,NP pos,NP n){return A::insert_before(h,pos,n);}
void v_push_back(NP h,NP n){A::push_back(h,n);}
void v_push_front(NP h,NP n){A::push_front(h,n);}
void v_erase(NP h,NP z){A::erase(h,z);}
void v_unlink(NP z){A::unlink(z);}
void v_swap_tree(NP a,NP b){A::swap_tree(a,b);}
void v_swap_nodes(NP a,NP ha,NP b,NP hb){A::swap_nodes(a,ha,b,hb);}
void v_swap_nodes2(NP a,NP b){A::swap_nodes(a,b);}
void v_replace_node(NP a,NP h,NP b){A::replace_node(a,h,b);}
void v_replace_node2(NP a,NP b){A::replace_node(a,b);}
NP v_unlink_leftmost(NP h){return A::unlink_leftmost_without_rebalance(h);}
bool v_transfer_unique(NP h1,NP h2,NP z){return A::transfer_unique(h1,Comp(),h2,z);}
void v_transfer_equal(NP h1,NP h2,NP z){A::transfer_equal(h1,Comp(),h2,z);}
#ifdef PRIV
void v_rebal_ins(NP h,NP p){A::rebalance_after_insertion(h,p);}
void v_rebal_ers(NP h,NP x,NP xp){A::rebalance_after_erasure_restore_invariants(h,x,xp);}
#endif
#ifdef BST
void v_clear_and_dispose(NP h){A::clear_and_dispose(h,Disp());}
void v_rebalance(NP h){A::rebalance(h);}
NP v_rebalance_subtree(NP n){return A::rebalance_subtree(n);}
#endif
void v_clone(CNP s,NP t){A::clone(s,t,Clone(),Disp());}
}

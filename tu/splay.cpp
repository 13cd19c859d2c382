#include "treent.hpp"
#include <boost/intrusive/splaytree_algorithms.hpp>
using namespace boost::intrusive;
typedef splaytree_algorithms<NT> A;
typedef std::size_t sz;
extern "C" {
void v_splay_up(NP n,NP h){A::splay_up(n,h);}
NP v_splay_down(NP h,const Key&k){return A::splay_down(h,k,Comp());}
NP v_splay_down_found(NP h,const Key&k,bool*f){return A::splay_down(h,k,Comp(),f);}
NP v_lower_bound(NP h,const Key&k){return A::lower_bound(h,k,Comp());}
NP v_upper_bound(NP h,const Key&k){return A::upper_bound(h,k,Comp());}
NP v_find(NP h,const Key&k){return A::find(h,k,Comp());}
sz v_count(NP h,const Key&k){return A::count(h,k,Comp());}
void v_equal_range(NP h,const Key&k,NP*a,NP*b){std::pair<NP,NP> r=A::equal_range(h,k,Comp());*a=r.first;*b=r.second;}
void v_lower_bound_range(NP h,const Key&k,NP*a,NP*b){std::pair<NP,NP> r=A::lower_bound_range(h,k,Comp());*a=r.first;*b=r.second;}
void v_bounded_range(NP h,const Key&k,const Key&l,bool lc,bool rc,NP*a,NP*b){std::pair<NP,NP> r=A::bounded_range(h,k,l,Comp(),lc,rc);*a=r.first;*b=r.second;}
void v_insert_unique_check(NP h,const Key&k,NP*a,bool*b,bool*left,NP*node){A::insert_commit_data d; std::pair<NP,bool> r=A::insert_unique_check(h,k,Comp(),d);*a=r.first;*b=r.second; if(r.second){*left=d.link_left;*node=d.node;}}
void v_insert_unique_check_hint(NP h,NP hint,const Key&k,NP*a,bool*b,bool*left,NP*node){A::insert_commit_data d; std::pair<NP,bool> r=A::insert_unique_check(h,hint,k,Comp(),d);*a=r.first;*b=r.second; if(r.second){*left=d.link_left;*node=d.node;}}
NP v_insert_equal(NP h,NP hint,NP n){return A::insert_equal(h,hint,n,Comp());}
NP v_insert_equal_upper_bound(NP h,NP n){return A::insert_equal_upper_bound(h,n,Comp());}
NP v_insert_equal_lower_bound(NP h,NP n){return A::insert_equal_lower_bound(h,n,Comp());}
NP v_insert_before(NP h,NP pos,NP n){return A::insert_before(h,pos,n);}
void v_push_back(NP h,NP n){A::push_back(h,n);}
void v_push_front(NP h,NP n){A::push_front(h,n);}
void v_erase(NP h,NP z){A::erase(h,z);}
}

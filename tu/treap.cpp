#include "treent.hpp"
#include <boost/intrusive/treap_algorithms.hpp>
using namespace boost::intrusive;
typedef treap_algorithms<NT> A;
typedef std::size_t sz;
extern "C" {
sz v_chk(CNP h,CNP up,NP k){sz n; A::rebalance_after_insertion_check(h,up,k,Prio(),n); return n;}
void v_rotup(NP h,NP p,sz n){A::rotate_up_n(h,p,n);}
void v_rebers(NP h,NP z){A::rebalance_for_erasure(h,z,Prio());}
void v_insert_unique_commit(NP h,NP n,bool left,NP node,sz rot){A::insert_commit_data d; d.link_left=left; d.node=node; d.rotations=rot; A::insert_unique_commit(h,n,d);}
void v_insert_unique_check(CNP h,const Key&k,NP pk,NP*a,bool*b,bool*left,NP*node,sz*rot){A::insert_commit_data d; std::pair<NP,bool> r=A::insert_unique_check(h,k,Comp(),pk,Prio(),d);*a=r.first;*b=r.second; if(r.second){*left=d.link_left;*node=d.node;*rot=d.rotations;}}
void v_insert_unique_check_hint(CNP h,NP hint,const Key&k,NP pk,NP*a,bool*b,bool*left,NP*node,sz*rot){A::insert_commit_data d; std::pair<NP,bool> r=A::insert_unique_check(h,hint,k,Comp(),pk,Prio(),d);*a=r.first;*b=r.second; if(r.second){*left=d.link_left;*node=d.node;*rot=d.rotations;}}
NP v_insert_equal(NP h,NP hint,NP n){return A::insert_equal(h,hint,n,Comp(),Prio());}
NP v_insert_equal_upper_bound(NP h,NP n){return A::insert_equal_upper_bound(h,n,Comp(),Prio());}
NP v_insert_equal_lower_bound(NP h,NP n){return A::insert_equal_lower_bound(h,n,Comp(),Prio());}
NP v_insert_before(NP h,NP pos,NP n){return A::insert_before(h,pos,n,Prio());}
void v_push_back(NP h,NP n){A::push_back(h,n,Prio());}
void v_push_front(NP h,NP n){A::push_front(h,n,Prio());}
void v_erase(NP h,NP z){A::erase(h,z,Prio());}
void v_unlink(NP z){A::unlink(z,Prio());}
}

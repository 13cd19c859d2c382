#include "vcommon.hpp"
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
extern "C" {
NP  nt_get_next(CNP) noexcept;
void nt_set_next(NP, NP) noexcept;
bool cb_pred(CNP);
void cb_dispose(NP) noexcept;
}
struct NT {
  typedef Node node; typedef Node* node_ptr; typedef const Node* const_node_ptr;
  static NP get_next(CNP n){return nt_get_next(n);}
  static void set_next(NP n,NP v){nt_set_next(n,v);}
};
struct Pred { bool operator()(CNP n) const { return cb_pred(n); } };
struct Disp { void operator()(NP n) const { cb_dispose(n); } };
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define W(n) CAT(CAT(v_,PFX),n)
#define COMMON \
void W(init)(NP a){A::init(a);} \
bool W(inited)(CNP a){return A::inited(a);} \
bool W(unique)(CNP a){return A::unique(a);} \
void W(init_header)(NP a){A::init_header(a);} \
bool W(is_empty)(CNP a){return A::is_empty(a);} \
bool W(is_sentinel)(CNP a){return A::is_sentinel(a);} \
void W(set_sentinel)(NP a){A::set_sentinel(a);} \
NP W(end_node)(CNP a){return A::end_node(a);} \
NP W(get_previous_node2)(NP b,NP a){return A::get_previous_node(b,a);} \
std::size_t W(count)(CNP a){return A::count(a);} \
std::size_t W(distance)(CNP f,CNP l){return A::distance(f,l);} \
void W(unlink_after)(NP a){A::unlink_after(a);} \
void W(unlink_after2)(NP a,NP l){A::unlink_after(a,l);} \
void W(link_after)(NP p,NP a){A::link_after(p,a);} \
void W(incorporate_after)(NP p,NP b,NP e){A::incorporate_after(p,b,e);} \
void W(transfer_after)(NP p,NP b,NP e){A::transfer_after(p,b,e);} \
void W(transfer_after_all)(NP p,NP o){A::transfer_after(p,o);} \
std::size_t W(unlink_after_and_dispose)(NP b,NP e){return A::unlink_after_and_dispose(b,e,Disp());} \
std::size_t W(detach_and_dispose)(NP p){return A::detach_and_dispose(p,Disp());} \
void W(stable_partition)(NP b,NP e,std::size_t&n1,std::size_t&n2,NP&beg2,NP&nl){ \
  A::stable_partition_info i; A::stable_partition(b,e,Pred(),i); n1=i.num_1st_partition;n2=i.num_2nd_partition;beg2=i.beg_2st_partition;nl=i.new_last_node;}

#define PFX c_
namespace c { typedef boost::intrusive::circular_slist_algorithms<NT> A;
extern "C" {
COMMON
NP v_c_get_previous_node(NP a){return A::get_previous_node(a);}
NP v_c_get_pp(NP a){return A::get_previous_previous_node(a);}
NP v_c_get_pp2(NP p,NP a){return A::get_previous_previous_node(p,a);}
void v_c_unlink(NP a){A::unlink(a);}
void v_c_link_before(NP p,NP a){A::link_before(p,a);}
void v_c_swap_nodes(NP a,NP b){A::swap_nodes(a,b);}
void v_c_reverse(NP p){A::reverse(p);}
NP v_c_move_backwards(NP p,std::size_t n){return A::move_backwards(p,n);}
NP v_c_move_forward(NP p,std::size_t n){return A::move_forward(p,n);}
}}
#undef PFX
#define PFX l_
namespace l { typedef boost::intrusive::linear_slist_algorithms<NT> A;
extern "C" {
COMMON
void v_l_swap_trailing_nodes(NP a,NP b){A::swap_trailing_nodes(a,b);}
NP v_l_reverse(NP p){return A::reverse(p);}
NP v_l_move_backwards(NP p,std::size_t n,NP&last){A::node_pair r=A::move_first_n_backwards(p,n);last=r.second;return r.first;}
NP v_l_move_forward(NP p,std::size_t n,NP&last){A::node_pair r=A::move_first_n_forward(p,n);last=r.second;return r.first;}
}}

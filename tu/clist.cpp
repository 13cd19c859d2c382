#include "vcommon.hpp"
#include <boost/intrusive/circular_list_algorithms.hpp>
extern "C" {
NP  nt_get_next(CNP) noexcept;
NP  nt_get_previous(CNP) noexcept;
void nt_set_next(NP, NP) noexcept;
void nt_set_previous(NP, NP) noexcept;
bool cb_pred(CNP);
void cb_dispose(NP) noexcept;
}
struct NT {
  typedef Node node; typedef Node* node_ptr; typedef const Node* const_node_ptr;
  static NP get_next(CNP n){return nt_get_next(n);}
  static NP get_previous(CNP n){return nt_get_previous(n);}
  static void set_next(NP n,NP v){nt_set_next(n,v);}
  static void set_previous(NP n,NP v){nt_set_previous(n,v);}
};
typedef boost::intrusive::circular_list_algorithms<NT> A;
extern "C" {
void v_init(NP a){A::init(a);}
bool v_inited(CNP a){return A::inited(a);}
void v_init_header(NP a){A::init_header(a);}
bool v_is_empty(CNP a){return A::is_empty(a);}
bool v_unique(CNP a){return A::unique(a);}
std::size_t v_count(CNP a){return A::count(a);}
NP v_unlink(NP a){return A::unlink(a);}
void v_unlink_range(NP b,NP e){A::unlink(b,e);}
void v_link_before(NP p,NP a){A::link_before(p,a);}
void v_link_after(NP p,NP a){A::link_after(p,a);}
void v_swap_nodes(NP a,NP b){A::swap_nodes(a,b);}
void v_transfer_range(NP p,NP b,NP e){A::transfer(p,b,e);}
void v_transfer_one(NP p,NP i){A::transfer(p,i);}
void v_reverse(NP p){A::reverse(p);}
void v_move_backwards(NP p,std::size_t n){A::move_backwards(p,n);}
void v_move_forward(NP p,std::size_t n){A::move_forward(p,n);}
std::size_t v_distance(CNP f,CNP l){return A::distance(f,l);}
void v_stable_partition(NP b,NP e,std::size_t&n1,std::size_t&n2,NP&beg2){A::stable_partition_info i; A::stable_partition(b,e,cb_pred,i); n1=i.num_1st_partition;n2=i.num_2nd_partition;beg2=i.beg_2st_partition;}
}

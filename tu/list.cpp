// list_impl over abstract node traits.  CT: constant_time_size, SAFE: safe_link (otherwise normal_link)
#include "vcommon.hpp"
#include <new>
struct Node { void *a, *b; Node(){} };
#include <boost/intrusive/list.hpp>
extern "C" {
NP  nt_get_next(CNP) noexcept;
NP  nt_get_previous(CNP) noexcept;
void nt_set_next(NP, NP) noexcept;
void nt_set_previous(NP, NP) noexcept;
bool cb_pred(CNP);
bool cb_comp(CNP, CNP);
bool cb_equal(CNP, CNP);
NP cb_clone(CNP);
void cb_dispose(NP) noexcept;
}
struct NT {
  typedef Node node; typedef Node* node_ptr; typedef const Node* const_node_ptr;
  static NP get_next(CNP n){return nt_get_next(n);}
  static NP get_previous(CNP n){return nt_get_previous(n);}
  static void set_next(NP n,NP v){nt_set_next(n,v);}
  static void set_previous(NP n,NP v){nt_set_previous(n,v);}
};
namespace bi = boost::intrusive;
struct VT {
  typedef NT node_traits; typedef Node value_type; typedef Node* node_ptr; typedef const Node* const_node_ptr;
  typedef Node* pointer; typedef const Node* const_pointer; typedef Node& reference; typedef const Node& const_reference;
  static const bi::link_mode_type link_mode = SAFE ? bi::safe_link : bi::normal_link;
  static NP to_node_ptr(Node& v){return &v;}
  static CNP to_node_ptr(const Node& v){return &v;}
  static NP to_value_ptr(NP n){return n;}
  static CNP to_value_ptr(CNP n){return n;}
};
typedef bi::list_impl<VT, std::size_t, CT != 0, void> L;
typedef L::iterator It;
typedef L::const_iterator CIt;
typedef bi::value_traits_pointers<VT>::const_value_traits_ptr CVTP;
static inline CIt ci(NP p){ return CIt(p, CVTP()); }
struct Disp { void operator()(NP n) const { cb_dispose(n); } };
struct Pred { bool operator()(const Node& n) const { return cb_pred(&n); } };
struct Comp { bool operator()(const Node& a, const Node& b) const { return cb_comp(&a, &b); } };
struct Eq { bool operator()(const Node& a, const Node& b) const { return cb_equal(&a, &b); } };
struct Clone { NP operator()(const Node& n) const { return cb_clone(&n); } };
extern "C" {
void v_ctor(L* l){ new (l) L(); }
void v_dtor(L* l){ l->~L(); }
void v_move_ctor(L* l, L* o){ new (l) L(boost::move(*o)); }
void v_move_assign(L* l, L* o){ *l = boost::move(*o); }
void v_swap(L* l, L* o){ l->swap(*o); }
void v_push_back(L* l, NP v){ l->push_back(*v); }
void v_push_front(L* l, NP v){ l->push_front(*v); }
void v_pop_back(L* l){ l->pop_back(); }
void v_pop_front(L* l){ l->pop_front(); }
void v_pop_back_and_dispose(L* l){ l->pop_back_and_dispose(Disp()); }
void v_pop_front_and_dispose(L* l){ l->pop_front_and_dispose(Disp()); }
NP v_front(L* l){ return &l->front(); }
NP v_back(L* l){ return &l->back(); }
CNP v_cfront(const L* l){ return &l->front(); }
CNP v_cback(const L* l){ return &l->back(); }
NP v_begin(L* l){ return l->begin().pointed_node(); }
NP v_end(L* l){ return l->end().pointed_node(); }
NP v_rbegin(L* l){ return &*l->rbegin(); }
std::size_t v_size(const L* l){ return l->size(); }
bool v_empty(const L* l){ return l->empty(); }
NP v_inc(NP p){ It i(p, CVTP()); ++i; return i.pointed_node(); }
NP v_dec(NP p){ It i(p, CVTP()); --i; return i.pointed_node(); }
NP v_erase(L* l, NP p){ return l->erase(ci(p)).pointed_node(); }
NP v_erase_range(L* l, NP b, NP e){ return l->erase(ci(b), ci(e)).pointed_node(); }
NP v_erase_range_n(L* l, NP b, NP e, std::size_t n){ return l->erase(ci(b), ci(e), n).pointed_node(); }
NP v_erase_and_dispose(L* l, NP p){ return l->erase_and_dispose(ci(p), Disp()).pointed_node(); }
NP v_erase_and_dispose_range(L* l, NP b, NP e){ return l->erase_and_dispose(ci(b), ci(e), Disp()).pointed_node(); }
void v_clear(L* l){ l->clear(); }
void v_clear_and_dispose(L* l){ l->clear_and_dispose(Disp()); }
void v_clone_from(L* l, const L* s){ l->clone_from(*s, Clone(), Disp()); }
NP v_insert(L* l, NP p, NP v){ return l->insert(ci(p), *v).pointed_node(); }
void v_splice(L* l, NP p, L* x){ l->splice(ci(p), *x); }
void v_splice1(L* l, NP p, L* x, NP i){ l->splice(ci(p), *x, ci(i)); }
void v_splice_range(L* l, NP p, L* x, NP f, NP e){ l->splice(ci(p), *x, ci(f), ci(e)); }
void v_splice_range_n(L* l, NP p, L* x, NP f, NP e, std::size_t n){ l->splice(ci(p), *x, ci(f), ci(e), n); }
void v_merge(L* l, L* x){ l->merge(*x, Comp()); }
void v_reverse(L* l){ l->reverse(); }
void v_shift_backwards(L* l, std::size_t n){ l->shift_backwards(n); }
void v_shift_forward(L* l, std::size_t n){ l->shift_forward(n); }
void v_remove_if(L* l){ l->remove_if(Pred()); }
void v_remove_and_dispose_if(L* l){ l->remove_and_dispose_if(Pred(), Disp()); }
void v_unique_and_dispose(L* l){ l->unique_and_dispose(Eq(), Disp()); }
NP v_iterator_to(L* l, NP v){ return l->iterator_to(*v).pointed_node(); }
void v_check(const L* l){ l->check(); }
}

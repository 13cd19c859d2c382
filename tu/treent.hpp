#include "vcommon.hpp"
struct Key;
extern "C" {
NP nt_get_left(CNP) noexcept;  void nt_set_left(NP,NP) noexcept;
NP nt_get_right(CNP) noexcept; void nt_set_right(NP,NP) noexcept;
NP nt_get_parent(CNP) noexcept; void nt_set_parent(NP,NP) noexcept;
int nt_get_color(CNP) noexcept; void nt_set_color(NP,int) noexcept;
int nt_get_balance(CNP) noexcept; void nt_set_balance(NP,int) noexcept;
bool cb_comp_nn(CNP,CNP);
bool cb_comp_nk(CNP,const Key*);
bool cb_comp_kn(const Key*,CNP);
bool cb_prio(CNP,CNP);
NP cb_clone(CNP);
void cb_dispose(NP) noexcept;
}
struct NT {
  typedef Node node; typedef Node* node_ptr; typedef const Node* const_node_ptr;
  static NP get_left(CNP n){return nt_get_left(n);}
  static NP get_right(CNP n){return nt_get_right(n);}
  static NP get_parent(CNP n){return nt_get_parent(n);}
  static void set_left(NP n,NP v){nt_set_left(n,v);}
  static void set_right(NP n,NP v){nt_set_right(n,v);}
  static void set_parent(NP n,NP v){nt_set_parent(n,v);}
  typedef int color;
  static color get_color(CNP n){return nt_get_color(n);}
  static void set_color(NP n,color c){nt_set_color(n,c);}
  static color red(){return 0;} static color black(){return 1;}
  typedef int balance;
  static balance get_balance(CNP n){return nt_get_balance(n);}
  static void set_balance(NP n,balance b){nt_set_balance(n,b);}
  static balance negative(){return 0;} static balance zero(){return 1;} static balance positive(){return 2;}
};
struct Comp {
  bool operator()(CNP a,CNP b) const {return cb_comp_nn(a,b);}
  bool operator()(CNP a,const Key&k) const {return cb_comp_nk(a,&k);}
  bool operator()(const Key&k,CNP a) const {return cb_comp_kn(&k,a);}
};
struct Prio { bool operator()(CNP a,CNP b) const {return cb_prio(a,b);} };
struct Clone { NP operator()(CNP a) const {return cb_clone(a);} };
struct Disp { void operator()(NP a) const {cb_dispose(a);} };

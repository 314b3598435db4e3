//@ property: C12
//@ src: cross-level/param-cl.c
//@ fn: check_parameter check_int_par check_float_par check_double_par check_date_par check_enum_par
//@ variant: int KIND=1 T=int F=int_vec_ R=int_range TY=_PAR_INT_
//@ variant: float KIND=2 T=float F=float_vec_ R=float_range TY=_PAR_FLOAT_
//@ variant: double KIND=3 T=double F=double_vec_ R=double_range TY=_PAR_DOUBLE_
//@ variant: date KIND=4 TY=_PAR_DATE_
//@ variant: enum KIND=5 T=int F=int_vec_ TY=_PAR_ENUM_
//@ variant: bool KIND=5 T=int F=int_vec_ TY=_PAR_BOOL_
//@ variant: enum1 KIND=6 TY=_PAR_ENUM_
//@ assume: text parameters (check_char_par, fileexist) are outside this property
#include "vc.h"
#include "cross-level/param-cl.h"
/* one parameter with any number of values (or one enumerated value) */
int L, n, E, W_k, W_e, Q_k, Q_e, ret, HO_i, HC_i, HI_e, *len, *wit, *iv; bool any, HB_ok; params_t *ps; par_t *par; date_t *dv; tagged_enum_t *en;
#ifdef T
T *vec;
#endif

/* text parameters do not occur here */
int stub_check_char_par(par_t *p){ ENSURE("only text parameters are checked as text", p->type == _PAR_CHAR_); return SUCCESS; }
int stub_fileexist(char *f){ return 0; }
#if KIND <= 3
#define GOOD(k) (vec[k] >= par->R[0] && vec[k] <= par->R[1])
#define BADV(k) (!GOOD(k))
#elif KIND == 4
#define GOOD(k) (dv[k].ce >= par->date_range[0].ce && dv[k].ce <= par->date_range[1].ce)
#define BADV(k) (!GOOD(k))
#elif KIND == 5
/* wit names the entry of the legal set that a good value equals */
#define GOOD(k) (wit[k] >= 0 && wit[k] < E && en[wit[k]].en == vec[k])
#define BADV(k) 1
#else
#define GOOD(k) (wit[0] >= 0 && wit[0] < E && en[wit[0]].en == *par->int_)
#define BADV(k) 1
#endif
static int want(void){ return par->set && (KIND == 6 || (n > 0 && (par->expected_length <= 0 || n == par->expected_length))); }
#if KIND != 6
void all_good(void){ HINT(any || Q_k < 0 || Q_k >= n || GOOD(Q_k)); }
#endif
#if KIND == 5
void all_bad(void){ HINT(!any || Q_e < 0 || Q_e >= E || en[Q_e].en != vec[W_k]); }
#elif KIND == 6
void all_bad(void){ HINT(!any || Q_e < 0 || Q_e >= E || en[Q_e].en != *par->int_); }
#endif

void pre(void){
  L = DIM(1, 100000, 4); any = vc_bool(); n = vc_range(any, L); W_k = vc_range(0, L-1);
  if (any) ASSUME(W_k < n);
  ps = STRUCTS(params_t, 1); par = STRUCTS(par_t, 1); ps->n = 1; ps->nmax = 1; ps->par = par;
  par->set = vc_range(0, 9) > 0; par->type = TY; par->expected_length = vc_bool() ? n : vc_range(0, 5);
  E = DIM(1, 100000, 3); en = STRUCTS(tagged_enum_t, E); par->enums = en; par->n_enums = E;
#if KIND == 6
  par->length = NULL; par->int_ = ARR(int, 1); wit = ARR(int, 1); n = 1; W_k = 0;
#else
  len = ARR(int, 1); *len = n; par->length = len; wit = ARR(int, L);
#endif
#ifdef T
  vec = ARR(T, L); par->F = PTRS(T, 1); par->F[0] = vec;
#endif
#if KIND == 4
  dv = STRUCTS(date_t, L); par->date_vec_ = PTRS(date_t, 1); par->date_vec_[0] = dv;
#endif
#ifndef VC_GVC
  int lo = vc_range(-1000, 1000), hi = lo + vc_range(0, 5);
#if KIND <= 3
  par->R[0] = lo; par->R[1] = hi;
#endif
  par->date_range[0].ce = lo; par->date_range[1].ce = hi;
  for (int e=0; e<E; e++) en[e].en = lo + 2*e;
  for (int k=0; k<n; k++){
    int b = any && (k == W_k || vc_range(0, 3) == 0), v = b ? (vc_bool() ? lo - vc_range(1, 3) : hi + vc_range(1, 3)) : vc_range(lo, hi);
#if KIND >= 5
    wit[k] = vc_range(0, E-1); v = b ? en[wit[k]].en + 1 : en[wit[k]].en;
#endif
#ifdef T
    vec[k] = v;
    if (KIND != 5 && b && vc_range(0, 3) == 0) vec[k] = vc_double();
#elif KIND == 4
    dv[k].ce = v;
#else
    *par->int_ = v;
#endif
  }
#endif
#if KIND == 6
  ASSUME(any || GOOD(0));
#else
  ALLQ(Q_k, n, any || GOOD(Q_k));
#endif
#if KIND == 5
  ALLQ(Q_e, E, !any || en[Q_e].en != vec[W_k]);
#elif KIND == 6
  ALLQ(Q_e, E, !any || en[Q_e].en != *par->int_);
#endif
  ASSUME(!any || BADV(W_k));
}
void run(void){ ret = check_parameter(ps); }
void post(void){
  ENSURE("accepted if and only if set, of the required length, and every value is legal", (ret == SUCCESS) == (!any && want()));
  ENSURE("rejected otherwise", (ret == FAILURE) == (any || !want()));
}
void hint_none(void){ HINT(any || HI_e == 0); }
void hint_one(void){ HINT(!any || W_k >= HC_i || HI_e > 0); }
void hint_pos(void){ HINT(HI_e >= 0 && HI_e <= HO_i); }
/* the same for loops that run downwards */
void hint_oned(void){ HINT(!any || W_k <= HC_i || HI_e > 0); }
void hint_posd(void){ HINT(HI_e >= 0 && HI_e <= n-1-HO_i); }
#if KIND >= 5
void hint_found(void){ HINT(any || HC_i >= n || HC_i < 0 || wit[HC_i] >= HO_i || HB_ok); }
void hint_found1(void){ HINT(any || wit[0] >= HO_i || HB_ok); }
void hint_notfound(void){ HINT(!any || HC_i != W_k || !HB_ok); }
void hint_notfound1(void){ HINT(!any || !HB_ok); }
#endif
VC_MAIN

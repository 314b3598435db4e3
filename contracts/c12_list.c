//@ property: C12
//@ src: cross-level/param-cl.c
//@ fn: check_parameter check_int_par check_float_par check_double_par check_date_par check_enum_par
//@ assume: text parameters (check_char_par, fileexist) are outside this property
#include "vc.h"
#include "cross-level/param-cl.h"
/* any number of single-valued parameters of all numeric kinds */
int n, W_i, Q_i, ret, HO_i, HI_e; bool any; params_t *ps; par_t *par;

/* text parameters do not occur here */
int stub_check_char_par(par_t *p){ ENSURE("only text parameters are checked as text", p->type == _PAR_CHAR_); return SUCCESS; }
int stub_fileexist(char *f){ return 0; }
static int bad(int i){
  par_t *p = &par[i];
  if (!p->set) return 1;
  if (p->type == _PAR_INT_)    return !(*p->int_ >= p->int_range[0] && *p->int_ <= p->int_range[1]);
  if (p->type == _PAR_FLOAT_)  return !(*p->float_ >= p->float_range[0] && *p->float_ <= p->float_range[1]);
  if (p->type == _PAR_DOUBLE_) return !(*p->double_ >= p->double_range[0] && *p->double_ <= p->double_range[1]);
  return !(p->date_->ce >= p->date_range[0].ce && p->date_->ce <= p->date_range[1].ce);
}
void all_kind(void){ HINT(Q_i < 0 || Q_i >= n || (par[Q_i].length == NULL && (par[Q_i].type == _PAR_INT_ || par[Q_i].type == _PAR_FLOAT_ || par[Q_i].type == _PAR_DOUBLE_ || par[Q_i].type == _PAR_DATE_))); }
void all_good(void){ HINT(any || Q_i < 0 || Q_i >= n || !bad(Q_i)); }

void pre(void){
  n = DIM(1, 100000, 3); any = vc_bool(); W_i = vc_range(0, n-1);
  ps = STRUCTS(params_t, 1); par = STRUCTS(par_t, n); ps->n = n; ps->nmax = n; ps->par = par;
  ROWS(par, n, .int_, int, 1); ROWS(par, n, .float_, float, 1); ROWS(par, n, .double_, double, 1);
#ifdef VC_GVC
  ROWS(par, n, .date_, date_t, 1);
#else
  int t[4] = { _PAR_INT_, _PAR_FLOAT_, _PAR_DOUBLE_, _PAR_DATE_ };
  for (int i=0; i<n; i++){
    int b = any && (i == W_i || vc_range(0, 3) == 0), lo = vc_range(-1000, 1000), hi = lo + vc_range(0, 5), v = b ? (vc_bool() ? lo - vc_range(1, 3) : hi + vc_range(1, 3)) : vc_range(lo, hi);
    par[i].set = b ? vc_range(0, 3) > 0 : 1; par[i].type = t[vc_range(0, 3)]; par[i].date_ = STRUCTS(date_t, 1);
    par[i].int_range[0] = lo; par[i].int_range[1] = hi; *par[i].int_ = v;
    par[i].float_range[0] = lo; par[i].float_range[1] = hi; *par[i].float_ = v; if (b && vc_range(0, 3) == 0) *par[i].float_ = vc_float();
    par[i].double_range[0] = lo; par[i].double_range[1] = hi; *par[i].double_ = v; if (b && vc_range(0, 3) == 0) *par[i].double_ = vc_double();
    par[i].date_range[0].ce = lo; par[i].date_range[1].ce = hi; par[i].date_->ce = v;
  }
#endif
  ALLQ(Q_i, n, any || !bad(Q_i));
  ASSUME(!any || bad(W_i));
}
void run(void){ ret = check_parameter(ps); }
void post(void){
  ENSURE("accepted if and only if every parameter is set and in range", (ret == SUCCESS) == !any);
  ENSURE("rejected otherwise", (ret == FAILURE) == any);
}
void hint_none(void){ HINT(any || HI_e == 0); }
void hint_one(void){ HINT(!any || W_i >= HO_i || HI_e > 0); }
void hint_pos(void){ HINT(HI_e >= 0 && HI_e <= HO_i); }
/* the same for loops that run downwards */
void hint_oned(void){ HINT(!any || W_i <= HO_i || HI_e > 0); }
void hint_posd(void){ HINT(HI_e >= 0 && HI_e <= n-1-HO_i); }
VC_MAIN

//@ property: C25
//@ src: higher-level/trend-hl.c cross-level/stats-cl.c cross-level/alloc-cl.c
//@ fn: tsa_cat cat covariance variance
//@ opt: hint_guards2=ge
//@ opt: post_guards=strict
//@ variant: year FLD=fby_ DAT=d_fby NUM=ny KEY=year OUT=cay_ CASE=1
//@ variant: year-none FLD=fby_ DAT=d_fby NUM=ny KEY=year OUT=cay_ CASE=0
//@ variant: quarter FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter OUT=caq_ CASE=1
//@ variant: quarter-none FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter OUT=caq_ CASE=0
//@ variant: month FLD=fbm_ DAT=d_fbm NUM=nm KEY=month OUT=cam_ CASE=1
//@ variant: month-none FLD=fbm_ DAT=d_fbm NUM=nm KEY=month OUT=cam_ CASE=0
//@ variant: week FLD=fbw_ DAT=d_fbw NUM=nw KEY=week OUT=caw_ CASE=1
//@ variant: week-none FLD=fbw_ DAT=d_fbw NUM=nw KEY=week OUT=caw_ CASE=0
//@ variant: doy FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy OUT=cad_ CASE=1
//@ variant: doy-none FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy OUT=cad_ CASE=0
//@ assume: the regression metrics of the parts before/after the change are not followed
#include "vc.h"
#include "higher-level/trend-hl.h"
int nc, nf, W_p, G_m, ret, sig;
tsa_t ts; par_hl_t phl; small *mask; short nodata;

void stub_cite_me(int i){}
/* the significance test is not followed */
int stub_slope_significant(float p, int tail, int n, float b, float b0, float seb){ return sig; }
/* the regressions are under contract in C23 and not followed here: any result */
void stub_covar_recurrence(double x, double y, double *mx, double *my, double *vx, double *vy, double *cv, double n){ *mx = vc_double(); *my = vc_double(); *vx = vc_double(); *vy = vc_double(); *cv = vc_double(); }
void stub_linreg_coefs(double mx, double my, double cv, double vx, double *slp, double *off){ *slp = vc_double(); *off = vc_double(); }
void stub_linreg_rsquared(double cv, double vx, double vy, double *rsq){ *rsq = vc_double(); }
void stub_linreg_predict(double x, double slp, double off, double *y){ *y = vc_double(); }

#define V(t) (ts.FLD[t][W_p] != nodata)
/* position of the last valid value among the first t (-1: none) */
int rec_last(int t){ return t <= 0 ? -1 : V(t-1) ? t-1 : rec_last(t-1); }
/* decrease towards t from the valid value before it */
#define DROP(t) (ts.FLD[rec_last(t)][W_p] - ts.FLD[t][W_p])
#define CAND(t) (V(t) && rec_last(t) >= 0)
/* greatest decrease among the first t values, and the first position that shows it */
int rec_best(int t){ return t <= 1 ? -32768 : CAND(t-1) && DROP(t-1) > rec_best(t-1) ? DROP(t-1) : rec_best(t-1); }
int rec_pos(int t){ return t <= 1 ? 0 : CAND(t-1) && DROP(t-1) > rec_best(t-1) ? t-1 : rec_pos(t-1); }

static bool change(void){ return !(mask != NULL && !mask[W_p]) && rec_best(nf) != -32768; }
void pre(void){
  nc = DIM(1, 100000000, 3); nf = DIM(1, 30000, 5); nodata = vc_short(); sig = vc_range(-1, 1);
  W_p = vc_range(0, nc-1); G_m = vc_range(0, _CAT_LENGTH_-1);
  ts.cay_ = NULL; ts.caq_ = NULL; ts.cam_ = NULL; ts.caw_ = NULL; ts.cad_ = NULL;
  ts.FLD = PTRS(short, nf); ROWS(ts.FLD, nf, , short, nc);
  ts.OUT = PTRS(short, _CAT_LENGTH_); ROWS(ts.OUT, _CAT_LENGTH_, , short, nc);
  ts.DAT = DATES(nf); EACH(ts.DAT, nf, .KEY, 1, 3000);
  phl.NUM = nf; phl.tsa.pol.ocat = 0;
  phl.tsa.trd.conf = vc_float(); phl.tsa.trd.tail = vc_range(-1, 1); phl.tsa.trd.penalty = 0;
  mask = NULL;
  if (vc_bool()) mask = ARR(small, nc);
  /* two units: pixels with a change, pixels without */
  ASSUME(change() == CASE);
}
void run(void){ ret = tsa_cat(&ts, mask, nc, nodata, &phl); }
#define R(m) ts.OUT[m][W_p]
void post(void){
  int b = rec_best(nf), pos = rec_pos(nf);
  if (pos < 0 || pos >= nf) pos = 0;
  ENSURE("succeeds", ret == SUCCESS);
#if CASE == 0
  ENSURE("masked pixels and those without two values are nodata in every metric", R(G_m) == nodata);
#else
  if (b <= 32767) ENSURE("greatest decrease between successive valid values", R(_CAT_CHANGE_) == b);
  ENSURE("time of the greatest decrease", R(_CAT_YEAR_) == ts.DAT[pos].KEY);
#endif
}
int HC_f, HO_q, HI_a; float HF_c;
void hint_back(void){ HINT(rec_last(HC_f) == rec_last(HO_q+1)); }
void hint_last(void){ HINT(rec_last(HC_f) >= -1 && rec_last(HC_f) < HC_f); }
void hint_pos(void){ HINT(HI_a == rec_pos(HC_f)); }
void hint_posr(void){ HINT(rec_pos(HC_f) >= 0 && (rec_pos(HC_f) < HC_f || rec_pos(HC_f) == 0) && rec_pos(HC_f) < nf); }
void hint_prev(void){ HINT(HI_a == rec_last(HC_f)); }
void hint_best(void){ HINT(vc_same_f(HF_c, (float)rec_best(HC_f))); }
void hint_bestr(void){ HINT(rec_best(HC_f) >= -32768 && rec_best(HC_f) <= 65535); }
VC_MAIN

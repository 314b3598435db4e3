//@ property: C23
//@ src: higher-level/trend-hl.c cross-level/stats-cl.c cross-level/alloc-cl.c
//@ fn: tsa_trend trend covar_recurrence covariance variance linreg_coefs linreg_slope linreg_intercept linreg_rsquared linreg_predict
//@ variant: year FLD=fby_ DAT=d_fby NUM=ny KEY=year OUT=try_
//@ variant: quarter FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter OUT=trq_
//@ variant: month FLD=fbm_ DAT=d_fbm NUM=nm KEY=month OUT=trm_
//@ variant: week FLD=fbw_ DAT=d_fbw NUM=nw KEY=week OUT=trw_
//@ variant: doy FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy OUT=trd_
//@ variant: year-line LINE FLD=fby_ DAT=d_fby NUM=ny KEY=year OUT=try_
//@ variant: year-residuals RES FLD=fby_ DAT=d_fby NUM=ny KEY=year OUT=try_
//@ variant: quarter-line LINE FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter OUT=trq_
//@ variant: quarter-residuals RES FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter OUT=trq_
//@ variant: month-line LINE FLD=fbm_ DAT=d_fbm NUM=nm KEY=month OUT=trm_
//@ variant: month-residuals RES FLD=fbm_ DAT=d_fbm NUM=nm KEY=month OUT=trm_
//@ variant: week-line LINE FLD=fbw_ DAT=d_fbw NUM=nw KEY=week OUT=trw_
//@ variant: week-residuals RES FLD=fbw_ DAT=d_fbw NUM=nw KEY=week OUT=trw_
//@ variant: doy-line LINE FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy OUT=trd_
//@ variant: doy-residuals RES FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy OUT=trd_
//@ assume: the significance test of the slope is not followed
#include "vc.h"
#include "higher-level/trend-hl.h"
int nc, nf, W_p, G_m, ret, sig;
tsa_t ts; par_hl_t phl; small *mask; short nodata;

void stub_cite_me(int i){}
/* the significance test is not followed */
int stub_slope_significant(float p, int tail, int n, float b, float b0, float seb){ return sig; }

/* number of valid values among the first t, means and one-pass moment sums of time and value over them */
#define V(t) (ts.FLD[(t)-1][W_p] != nodata)
#define X(t) ((double)(ts.DAT[(t)-1].KEY - ts.DAT[0].KEY))
#define Y(t) ((double)ts.FLD[(t)-1][W_p])
#define N(t) ((double)rec_num(t))
int rec_num(int t){ return t <= 0 ? 0 : rec_num(t-1) + (V(t) ? 1 : 0); }
double rec_mx(int t){ return t <= 0 ? 0 : !V(t) ? rec_mx(t-1) : rec_num(t) == 1 ? X(t) : rec_mx(t-1) + (X(t)-rec_mx(t-1))/N(t); }
double rec_my(int t){ return t <= 0 ? 0 : !V(t) ? rec_my(t-1) : rec_num(t) == 1 ? Y(t) : rec_my(t-1) + (Y(t)-rec_my(t-1))/N(t); }
double rec_vx(int t){ return t <= 0 ? 0 : !V(t) || rec_num(t) == 1 ? rec_vx(t-1) : rec_vx(t-1) + (X(t)-rec_mx(t-1))*(X(t)-rec_mx(t)); }
double rec_vy(int t){ return t <= 0 ? 0 : !V(t) || rec_num(t) == 1 ? rec_vy(t-1) : rec_vy(t-1) + (Y(t)-rec_my(t-1))*(Y(t)-rec_my(t)); }
double rec_cv(int t){ return t <= 0 ? 0 : !V(t) || rec_num(t) == 1 ? rec_cv(t-1) : rec_cv(t-1) + (N(t)-1)/N(t)*(X(t)-rec_mx(t-1))*(Y(t)-rec_my(t-1)); }
#define SLP(n) (rec_cv(n)/(N(n)-1)/(rec_vx(n)/(N(n)-1)))
#define OFF(n) (rec_my(n)-SLP(n)*rec_mx(n))
#define RESID(t) (Y(t)-(OFF(nf)+SLP(nf)*X(t)))
double rec_sq(int t){ return t <= 0 ? 0 : V(t) ? rec_sq(t-1) + RESID(t)*RESID(t) : rec_sq(t-1); }
double rec_ab(int t){ return t <= 0 ? 0 : V(t) ? rec_ab(t-1) + fabs(RESID(t)) : rec_ab(t-1); }
double rec_mr(int t){ return t <= 0 ? -32768 : V(t) && fabs(RESID(t)) > rec_mr(t-1) ? fabs(RESID(t)) : rec_mr(t-1); }
#define FITS(x) ((x) > -32768.0 && (x) < 32767.0)

void pre(void){
  nc = DIM(1, 100000000, 3); nf = DIM(1, 30000, 5); nodata = vc_short(); sig = vc_range(-1, 1);
  W_p = vc_range(0, nc-1); G_m = vc_range(0, _TRD_LENGTH_-1);
  ts.try_ = NULL; ts.trq_ = NULL; ts.trm_ = NULL; ts.trw_ = NULL; ts.trd_ = NULL;
  ts.FLD = PTRS(short, nf); ROWS(ts.FLD, nf, , short, nc);
  ts.OUT = PTRS(short, _TRD_LENGTH_); ROWS(ts.OUT, _TRD_LENGTH_, , short, nc);
  ts.DAT = DATES(nf); EACH(ts.DAT, nf, .KEY, 1, 3000);
  phl.NUM = nf; phl.tsa.pol.otrd = 0;
  phl.tsa.trd.conf = vc_float(); phl.tsa.trd.tail = vc_range(-1, 1);
  mask = NULL;
  if (vc_bool()) mask = ARR(small, nc);
}
void run(void){ ret = tsa_trend(&ts, mask, nc, nodata, &phl); }
#define R(m) ts.OUT[m][W_p]
void post(void){
  int n = rec_num(nf);
  ENSURE("succeeds", ret == SUCCESS);
  if ((mask != NULL && !mask[W_p]) || n < 3){
    ENSURE("masked pixels and those with fewer than three values are nodata in every metric", R(G_m) == nodata);
    return;
  }
  ENSURE("number of valid values", R(_TRD_NUM_) == n);
  ENSURE("length of the series", R(_TRD_LEN_) == nf);
#ifdef LINE
  double vx = rec_vx(nf)/(N(nf)-1), vy = rec_vy(nf)/(N(nf)-1), cv = rec_cv(nf)/(N(nf)-1), slp = cv/vx, off = rec_my(nf)-slp*rec_mx(nf), rsq = cv*cv/(vx*vy)*10000;
  if (FITS(rec_my(nf))) ENSURE("mean of the valid values", R(_TRD_MEAN_) == (short)rec_my(nf));
  if (FITS(slp)) ENSURE("slope of the least-squares line through the valid values", R(_TRD_SLOPE_) == (short)slp);
  if (FITS(off)) ENSURE("offset of the least-squares line through the valid values", R(_TRD_OFFSET_) == (short)off);
  if (FITS(slp*nf)) ENSURE("absolute gain is slope times length", R(_TRD_ABS_GAIN_) == (short)(slp*nf));
  if (!(off > 0)) ENSURE("no relative gain without positive offset", R(_TRD_PRC_GAIN_) == 0);
  else if (FITS(slp*nf/off*100)) ENSURE("relative gain is gain per offset", R(_TRD_PRC_GAIN_) == (short)(slp*nf/off*100));
  if (FITS(rsq)) ENSURE("coefficient of determination", R(_TRD_RSQ_) == (short)rsq);
#endif
#ifdef RES
  double rm = sqrt(rec_sq(nf)/N(nf)), ma = rec_ab(nf)/N(nf);
  if (FITS(rm)) ENSURE("root mean square residual", R(_TRD_RMSE_) == (short)rm);
  if (FITS(ma)) ENSURE("mean absolute residual", R(_TRD_MAE_) == (short)ma);
  if (FITS(rec_mr(nf))) ENSURE("largest absolute residual", R(_TRD_MAXE_) == (short)rec_mr(nf));
#endif
}
int HC_f, HI_a; double HD_a;
void hint_k(void){ HINT(vc_same_d(HD_a, (double)rec_num(HC_f))); }
void hint_ki(void){ HINT(HI_a == rec_num(HC_f)); }
void hint_r(void){ HINT(rec_num(HC_f) >= 0 && rec_num(HC_f) <= HC_f); }
#ifdef RES
void hint_sq(void){ HINT(vc_same_d(HD_a, rec_sq(HC_f))); }
void hint_ab(void){ HINT(vc_same_d(HD_a, rec_ab(HC_f))); }
void hint_mr(void){ HINT(vc_same_d(HD_a, rec_mr(HC_f))); }
#endif
#if defined(LINE) || defined(RES)
void hint_mx(void){ HINT(vc_same_d(HD_a, rec_mx(HC_f))); }
void hint_my(void){ HINT(vc_same_d(HD_a, rec_my(HC_f))); }
void hint_vx(void){ HINT(vc_same_d(HD_a, rec_vx(HC_f))); }
void hint_vy(void){ HINT(vc_same_d(HD_a, rec_vy(HC_f))); }
void hint_cv(void){ HINT(vc_same_d(HD_a, rec_cv(HC_f))); }
#endif
VC_MAIN

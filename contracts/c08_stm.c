//@ property: C08
//@ src: higher-level/stm-hl.c cross-level/stats-cl.c cross-level/alloc-cl.c
//@ variant: range RANGE
//@ variant: moments MOMENTS
//@ variant: quantiles QUANTILES
//@ fn: tsa_stm kurt_recurrence skewness kurtosis standdev variance
//@ assume: the order statistic of the array handed over is computed by quantile; the array and count handed over are decided here, its sorting and selection in unit c08_quantile
#include "vc.h"
#include "higher-level/stm-hl.h"
int nc, ni, nm, nq, qbase, W_p, W_q, W_m, W_k, ret;
tsa_t ts; par_stm_t stm; small *mask; short nodata; float v25, v75, vxx, bad;

static bool valid(int t){ return ts.tsi_[t][W_p] != nodata; }
#include "series.h"

void stub_cite_me(int i){}
/* quantile of n values (GSL, assumed): the right value comes back only if exactly the valid values are handed over */
float stub_quantile(double *x, int n, float pr){
  if (n != rec_num(ni) || (W_k < n && x[W_k] != rec_at(ni))) return bad;
  return pr == 0.25f ? v25 : pr == 0.75f ? v75 : vxx;
}
static int metric(bool on, int k){ return on ? k : -1; }
void pre(void){
  nc = DIM(1, 100000000, 3); ni = DIM(1, 30000, 4); nodata = vc_short();
  W_p = vc_range(0, nc-1); W_k = vc_range(0, ni-1);
  nm = vc_range(1, 120); nq = vc_range(0, 20); qbase = vc_range(0, 119);
  ASSUME(qbase+nq <= nm);
  W_q = nq > 0 ? vc_range(0, nq-1) : 0; W_m = vc_range(0, nm-1);
  stm.sta.nmetrics = nm; stm.sta.nquantiles = nq; stm.sta.quantiles = nq > 0;
  stm.sta.num = vc_range(-1, nm-1); stm.sta.min = vc_range(-1, nm-1); stm.sta.max = vc_range(-1, nm-1); stm.sta.rng = vc_range(-1, nm-1);
  stm.sta.iqr = vc_range(-1, nm-1); stm.sta.avg = vc_range(-1, nm-1); stm.sta.std = vc_range(-1, nm-1); stm.sta.skw = vc_range(-1, nm-1); stm.sta.krt = vc_range(-1, nm-1);
  int a[9] = { stm.sta.num, stm.sta.min, stm.sta.max, stm.sta.rng, stm.sta.iqr, stm.sta.avg, stm.sta.std, stm.sta.skw, stm.sta.krt };
  for (int i = 0; i < 9; i++){
    ASSUME(a[i] < qbase || a[i] >= qbase+nq);
    for (int j = 0; j < i; j++) ASSUME(a[i] == -1 || a[i] != a[j]);
  }
  for (int i = 0; i < 20; i++){ stm.sta.qxx[i] = qbase+i; stm.sta.q[i] = vc_float(); }
  v25 = vc_float(); v75 = vc_float(); vxx = vc_float(); bad = vc_float();
  ASSUME(v25 > -32768.0f && v25 < 32767.0f && v75 > -32768.0f && v75 < 32767.0f && vxx > -32768.0f && vxx < 32767.0f);
  ts.tsi_ = PTRS(short, ni); ROWS(ts.tsi_, ni, , short, nc);
  ts.stm_ = NULL;
  if (vc_range(0, 30)){ ts.stm_ = PTRS(short, nm); ROWS(ts.stm_, nm, , short, nc); }
  mask = NULL;
  if (vc_bool()) mask = ARR(small, nc);
}
void run(void){ ret = tsa_stm(&ts, mask, nc, ni, nodata, &stm); }
#define OUT(f) ts.stm_[stm.sta.f][W_p]
void post(void){
  int n = rec_num(ni);
  double sd = sd_of(ni), s, k;
  if (ts.stm_ == NULL){ ENSURE("nothing to do", ret == CANCEL); return; }
  ENSURE("succeeds", ret == SUCCESS);
  if ((mask != NULL && !mask[W_p]) || n == 0){
    ENSURE("masked or empty pixels are nodata in every metric", ts.stm_[W_m][W_p] == nodata);
    return;
  }
  s = clamp(skew_of(ni)*1000);
  k = clamp((kurt_of(ni)-3)*1000);
#ifdef RANGE
  if (stm.sta.num > -1) ENSURE("number of valid values", OUT(num) == n);
  if (stm.sta.min > -1) ENSURE("minimum of the valid values", OUT(min) == rec_min(ni));
  if (stm.sta.max > -1) ENSURE("maximum of the valid values", OUT(max) == rec_max(ni));
  long d = (long)rec_max(ni)-rec_min(ni);
  if (stm.sta.rng > -1 && d >= -32768 && d <= 32767) ENSURE("range of the valid values", OUT(rng) == d);
#endif
#ifdef MOMENTS
  if (stm.sta.avg > -1 && FITS(rec_m1(ni))) ENSURE("mean of the valid values", OUT(avg) == (short)rec_m1(ni));
  if (stm.sta.std > -1 && FITS(sd)) ENSURE("standard deviation of the valid values", OUT(std) == (short)sd);
  if (stm.sta.skw > -1 && s == s) ENSURE("skewness of the valid values", OUT(skw) == (short)s);
  if (stm.sta.krt > -1 && k == k) ENSURE("kurtosis of the valid values", OUT(krt) == (short)k);
#endif
#ifdef QUANTILES
  if (W_q < nq){
    float q = stm.sta.q[W_q];
    ENSURE("quantiles of the valid values", ts.stm_[qbase+W_q][W_p] == (short)(q == 0.25f ? v25 : q == 0.75f ? v75 : vxx));
  }
  if (stm.sta.iqr > -1 && (short)v75-(short)v25 <= 32767 && (short)v75-(short)v25 >= -32768) ENSURE("inter-quartile range of the valid values", OUT(iqr) == (short)((short)v75-(short)v25));
#endif
}
VC_MAIN

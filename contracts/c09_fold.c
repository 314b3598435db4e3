//@ property: C09
//@ src: higher-level/fold-hl.c cross-level/stats-cl.c cross-level/alloc-cl.c
//@ fn: tsa_fold fold kurt_recurrence skewness kurtosis standdev variance
//@ opt: hint_guards2=true
//@ variant: year-range RANGE FLD=fby_ DAT=d_fby NUM=ny KEY=year
//@ variant: quarter-range RANGE FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter
//@ variant: month-range RANGE FLD=fbm_ DAT=d_fbm NUM=nm KEY=month
//@ variant: week-range RANGE FLD=fbw_ DAT=d_fbw NUM=nw KEY=week
//@ variant: doy-range RANGE FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy
//@ variant: year-moments MOMENTS FLD=fby_ DAT=d_fby NUM=ny KEY=year
//@ variant: quarter-moments MOMENTS FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter
//@ variant: month-moments MOMENTS FLD=fbm_ DAT=d_fbm NUM=nm KEY=month
//@ variant: week-moments MOMENTS FLD=fbw_ DAT=d_fbw NUM=nw KEY=week
//@ variant: doy-moments MOMENTS FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy
//@ variant: year-quantiles QUANTILES FLD=fby_ DAT=d_fby NUM=ny KEY=year
//@ variant: quarter-quantiles QUANTILES FLD=fbq_ DAT=d_fbq NUM=nq KEY=quarter
//@ variant: month-quantiles QUANTILES FLD=fbm_ DAT=d_fbm NUM=nm KEY=month
//@ variant: week-quantiles QUANTILES FLD=fbw_ DAT=d_fbw NUM=nw KEY=week
//@ variant: doy-quantiles QUANTILES FLD=fbd_ DAT=d_fbd NUM=nd KEY=doy
//@ assume: the order statistic of the array handed over is computed by quantile (see C08)
#include "vc.h"
#include "higher-level/fold-hl.h"
int nc, ni, nf, type, W_p, W_f, W_k, ret;
tsa_t ts; par_hl_t phl; small *mask; short nodata; float v25, v75, vxx, bad;

/* date t belongs to the period W_f and has a valid value */
static bool valid(int t){ return ts.d_tsi[t].KEY == ts.DAT[W_f].KEY && ts.tsi_[t][W_p] != nodata; }
#include "series.h"

/* quantile of n values (GSL, assumed): the right value comes back only if exactly the valid values are handed over */
float stub_quantile(double *x, int n, float pr){
  if (n != rec_num(ni) || (W_k < n && x[W_k] != rec_at(ni))) return bad;
  if (type == _STA_IQR_) return pr == 0.25f ? v25 : pr == 0.75f ? v75 : bad;
  return pr == (float)((type-_STA_Q01_+1)/100.0) ? vxx : bad;
}

void pre(void){
  nc = DIM(1, 100000000, 3); ni = DIM(1, 30000, 4); nf = DIM(1, 400, 3); nodata = vc_short();
  W_p = vc_range(0, nc-1); W_k = vc_range(0, ni-1); W_f = vc_range(0, nf-1);
  v25 = vc_float(); v75 = vc_float(); vxx = vc_float(); bad = vc_float();
  ASSUME(v25 > -32768.0f && v25 < 32767.0f && v75 > -32768.0f && v75 < 32767.0f && vxx > -32768.0f && vxx < 32767.0f);
  type = vc_range(_STA_MIN_, _STA_NUM_);
#ifdef RANGE
  ASSUME(type == _STA_MIN_ || type == _STA_MAX_ || type == _STA_RNG_ || type == _STA_NUM_);
#endif
#ifdef MOMENTS
  ASSUME(type >= _STA_AVG_ && type <= _STA_KRT_);
#endif
#ifdef QUANTILES
  ASSUME(type == _STA_IQR_ || (type >= _STA_Q01_ && type <= _STA_Q99_));
#endif
  phl.tsa.fld.type = type;
  ts.tsi_ = PTRS(short, ni); ROWS(ts.tsi_, ni, , short, nc);
  ts.d_tsi = DATES(ni);
  ts.fby_ = NULL; ts.fbq_ = NULL; ts.fbm_ = NULL; ts.fbw_ = NULL; ts.fbd_ = NULL;
  ts.FLD = PTRS(short, nf); ROWS(ts.FLD, nf, , short, nc);
  ts.DAT = DATES(nf);
  phl.NUM = nf;
  mask = NULL;
  if (vc_bool()) mask = ARR(small, nc);
}
void run(void){ ret = tsa_fold(&ts, mask, nc, ni, nodata, &phl); }
#define OUT ts.FLD[W_f][W_p]
void post(void){
  int n = rec_num(ni);
  ENSURE("succeeds", ret == SUCCESS);
  if ((mask != NULL && !mask[W_p]) || n == 0){
    ENSURE("masked pixels and empty periods are nodata", OUT == nodata);
    return;
  }
#ifdef RANGE
  long d = (long)rec_max(ni)-rec_min(ni);
  if (type == _STA_NUM_) ENSURE("number of valid values in the period", OUT == n);
  if (type == _STA_MIN_) ENSURE("minimum of the valid values in the period", OUT == rec_min(ni));
  if (type == _STA_MAX_) ENSURE("maximum of the valid values in the period", OUT == rec_max(ni));
  if (type == _STA_RNG_ && d >= -32768 && d <= 32767) ENSURE("range of the valid values in the period", OUT == d);
#endif
#ifdef MOMENTS
  double sd = sd_of(ni), s = clamp(skew_of(ni)*1000), k = clamp((kurt_of(ni)-3)*1000);
  if (type == _STA_AVG_ && FITS(rec_m1(ni))) ENSURE("mean of the valid values in the period", OUT == (short)rec_m1(ni));
  if (type == _STA_STD_ && FITS(sd)) ENSURE("standard deviation of the valid values in the period", OUT == (short)sd);
  if (type == _STA_SKW_ && s == s) ENSURE("skewness of the valid values in the period", OUT == (short)s);
  if (type == _STA_KRT_ && k == k) ENSURE("kurtosis of the valid values in the period", OUT == (short)k);
#endif
#ifdef QUANTILES
  if (type == _STA_IQR_){
    if (FITS(v75-v25)) ENSURE("inter-quartile range of the valid values in the period", OUT == (short)(v75-v25));
  } else ENSURE("quantile of the valid values in the period", OUT == (short)vxx);
#endif
}
VC_MAIN

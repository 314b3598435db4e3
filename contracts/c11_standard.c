//@ property: C11
//@ src: higher-level/standardize-hl.c cross-level/stats-cl.c
//@ fn: tsa_standardize standardize_timeseries var_recurrence standdev variance
//@ variant: series SER=tss_ NUM=nt FLAG=tsa.otss METHOD=tsa.standard
//@ variant: interpolated SER=tsi_ NUM=ni FLAG=tsa.tsi.otsi METHOD=tsa.tsi.standard
//@ variant: year SER=fby_ NUM=phl.ny FLAG=tsa.fld.ofby METHOD=tsa.fld.standard
//@ variant: quarter SER=fbq_ NUM=phl.nq FLAG=tsa.fld.ofbq METHOD=tsa.fld.standard
//@ variant: month SER=fbm_ NUM=phl.nm FLAG=tsa.fld.ofbm METHOD=tsa.fld.standard
//@ variant: week SER=fbw_ NUM=phl.nw FLAG=tsa.fld.ofbw METHOD=tsa.fld.standard
//@ variant: doy SER=fbd_ NUM=phl.nd FLAG=tsa.fld.ofbd METHOD=tsa.fld.standard
#include "vc.h"
#include "higher-level/standardize-hl.h"
int nc, n, nt, ni, method, W_p, W_t, ret;
tsa_t ts; par_hl_t phl; small *mask; short nodata, **copy;

#define X0(t) OLD(short, copy, ts.SER, t, W_p)
static bool valid(int t){ return X0(t) != nodata; }
/* valid values among the first t: number, mean, sum of squared deviations (one-pass recurrences) */
int rec_num(int t){ return t <= 0 ? 0 : rec_num(t-1) + (valid(t-1) ? 1 : 0); }
double rec_avg(int t){ return t <= 0 ? 0 : !valid(t-1) ? rec_avg(t-1) : rec_num(t) == 1 ? X0(t-1) : rec_avg(t-1) + ((double)X0(t-1)-rec_avg(t-1))/(double)rec_num(t); }
double rec_var(int t){ return t <= 0 ? 0 : !valid(t-1) ? rec_var(t-1) : rec_num(t) == 1 ? rec_var(t-1) : rec_var(t-1) + ((double)X0(t-1)-rec_avg(t-1))*((double)X0(t-1)-rec_avg(t)); }

void pre(void){
  nc = DIM(1, 100000000, 3); n = DIM(1, 30000, 4); nodata = vc_short(); method = vc_range(_STD_NONE_, _STD_CENTER_);
  W_p = vc_range(0, nc-1); W_t = vc_range(0, n-1);
  phl.tsa.otss = false; phl.tsa.tsi.otsi = false; phl.tsa.fld.ofby = false; phl.tsa.fld.ofbq = false; phl.tsa.fld.ofbm = false; phl.tsa.fld.ofbw = false; phl.tsa.fld.ofbd = false;
  phl.tsa.standard = vc_int(); phl.tsa.tsi.standard = vc_int(); phl.tsa.fld.standard = vc_int();
  nt = vc_int(); ni = vc_int(); phl.ny = vc_int(); phl.nq = vc_int(); phl.nm = vc_int(); phl.nw = vc_int(); phl.nd = vc_int();
  NUM = n; phl.FLAG = vc_range(0, 20) > 0; phl.METHOD = method;
  ts.SER = PTRS(short, n); ROWS(ts.SER, n, , short, nc); COPY(short, copy, ts.SER, n, nc);
  mask = NULL;
  if (vc_bool()) mask = ARR(small, nc);
}
void run(void){ ret = tsa_standardize(&ts, mask, nc, nt, ni, nodata, &phl); }
#define NOW ts.SER[W_t][W_p]
void post(void){
  double v = ((double)X0(W_t)-rec_avg(n)) / (method == _STD_NORMAL_ ? sqrt(rec_var(n)/((double)rec_num(n)-1))/10000 : 1.0);
  ENSURE("succeeds", ret == SUCCESS);
  if (!valid(W_t)) ENSURE("nodata stays nodata", NOW == nodata);
  if (!phl.FLAG || method == _STD_NONE_ || (mask != NULL && !mask[W_p]) || rec_num(n) < 2) ENSURE("unchanged if not requested, masked or fewer than two values", NOW == X0(W_t));
  else if (valid(W_t) && v == v) ENSURE("valid value is centred (and scaled) with the statistics of its own series", NOW == (short)(v > 32767 ? 32767 : v < -32768 ? -32768 : v));
}
int HI_a, HC_t; double HD_a;
void hint_num(void){ HINT(vc_same_d(HD_a, (double)rec_num(HC_t))); }
void hint_numi(void){ HINT(HI_a == rec_num(HC_t)); }
void hint_pos(void){ HINT(rec_num(HC_t) >= 0); }
void hint_avg(void){ HINT(vc_same_d(HD_a, rec_avg(HC_t))); }
void hint_var(void){ HINT(vc_same_d(HD_a, rec_var(HC_t))); }
void hint_same(void){ HINT(W_t < HC_t || NOW == X0(W_t)); }
void hint_samed(void){ HINT(W_t > HC_t || NOW == X0(W_t)); }
void hint_same0(void){ HINT(NOW == X0(W_t)); }
void hint_std(void){ HINT(method == _STD_NORMAL_ || vc_same_d(HD_a, 1.0)); }
int Q_t;
void hint_q(void){ HINT(Q_t < 0 || Q_t >= n || W_p < HC_t || ts.SER[Q_t][W_p] == X0(Q_t)); }
void hint_q2(void){ HINT(Q_t < 0 || Q_t >= n || W_p <= HC_t || ts.SER[Q_t][W_p] == X0(Q_t)); }
VC_MAIN

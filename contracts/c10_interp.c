//@ property: C10
//@ src: higher-level/interpolate-hl.c cross-level/alloc-cl.c
//@ fn: tsa_interpolation interpolate_none interpolate_linear interpolate_moving
//@ opt: hint_guards2=ge
//@ variant: none M=_INT_NONE_ NONE
//@ variant: linear M=_INT_LINEAR_ LINEAR
//@ variant: moving M=_INT_MOVING_ MOVING
//@ assume: observation dates and output dates are sorted by time, as the program lists them
//@ assume: radial basis functions and harmonic interpolation are outside this property
#include "vc.h"
#include "higher-level/interpolate-hl.h"
int nc, nt, ni, W_p, W_i, ret;
tsa_t ts; par_tsi_t tsi; small *mask; short nodata;

#define CE(t) ts.d_tss[t].ce
#define X ts.d_tsi[W_i].ce
#define Y(t) ts.tss_[t][W_p]
#define AT(t) ((t) < 0 ? 0 : (t) >= nt ? nt-1 : (t))
static bool valid(int t){ return Y(t) != nodata; }
/* first valid observation at or after X among t.. ; -1: none */
int rec_right(int t){ return t >= nt ? -1 : valid(t) && CE(t) >= X ? t : rec_right(t+1); }
/* last valid observation among the first t; -1: none */
int rec_last(int t){ return t <= 0 ? -1 : valid(t-1) ? t-1 : rec_last(t-1); }
/* sum and number of the valid observations from t on that lie in the window around X (dates ascend) */
int rec_sum(int t){ return t >= nt ? 0 : !valid(t) || X-CE(t) > tsi.mov_max ? rec_sum(t+1) : CE(t)-X > tsi.mov_max ? 0 : Y(t)+rec_sum(t+1); }
int rec_num(int t){ return t >= nt ? 0 : !valid(t) || X-CE(t) > tsi.mov_max ? rec_num(t+1) : CE(t)-X > tsi.mov_max ? 0 : 1+rec_num(t+1); }
/* the same, looking at all observations: equal because dates ascend */
#define IN(t) (valid(t) && X-CE(t) <= tsi.mov_max && CE(t)-X <= tsi.mov_max)
int rec_sum_all(int t){ return t >= nt ? 0 : IN(t) ? Y(t)+rec_sum_all(t+1) : rec_sum_all(t+1); }
int rec_num_all(int t){ return t >= nt ? 0 : IN(t) ? 1+rec_num_all(t+1) : rec_num_all(t+1); }

void cite_me(int i){}
void pre(void){
  nc = DIM(1, 100000000, 2); nt = DIM(1, 30000, 5); ni = DIM(1, 30000, 4); nodata = vc_short();
#ifdef NONE
  ni = nt;
#endif
  W_p = vc_range(0, nc-1); W_i = vc_range(0, ni-1);
  tsi.method = M; tsi.mov_max = vc_range(1, 365);
  ts.d_tss = DATES(nt); ts.d_tsi = DATES(ni);
  SORTED(ts.d_tss, nt, .ce, 0, 1000000, 0); SORTED(ts.d_tsi, ni, .ce, 0, 1000000, 1);
  ts.tss_ = PTRS(short, nt); ROWS(ts.tss_, nt, , short, nc);
  ts.tsi_ = PTRS(short, ni); ROWS(ts.tsi_, ni, , short, nc);
  mask = NULL;
  if (vc_bool()) mask = ARR(small, nc);
}
void run(void){ ret = tsa_interpolation(&ts, mask, nc, nt, 0, ni, nodata, &tsi); }
#define OUT ts.tsi_[W_i][W_p]
void post(void){
  ENSURE("succeeds", ret == SUCCESS);
#ifdef NONE
  ENSURE("switched off: the series is copied", OUT == Y(W_i));
#else
  if (mask != NULL && !mask[W_p]) ENSURE("masked pixel is nodata", OUT == nodata);
#endif
#ifdef LINEAR
  else {
    int r = rec_right(0), l = rec_last(r < 0 ? nt : r);
    int a = AT(l), b = AT(r);
    if (l < 0 && r < 0) ENSURE("no valid observation: nodata", OUT == nodata);
    else if (r >= 0 && CE(b) == X) ENSURE("observation on the time step is taken over", OUT == Y(b));
    else if (l < 0) ENSURE("before the first valid observation: first one", OUT == Y(b));
    else if (r < 0) ENSURE("after the last valid observation: last one", OUT == Y(a));
    else {
      float x = X, xl = CE(a), xr = CE(b), yl = Y(a), yr = Y(b);
      ENSURE("on the line between the neighbouring valid observations", OUT == (short)((yl*(xr-x) + yr*(x-xl))/(xr-xl)));
    }
  }
#endif
#ifdef MOVING
  else {
    int n = rec_num(0), m = rec_num_all(0);
    ENSURE("no valid observation in the window: nodata; else the mean of the valid observations in the window",
      (n == 0 ? OUT == nodata : OUT == (short)((double)rec_sum(0)/(double)n)) || (m == 0 ? OUT == nodata : OUT == (short)((double)rec_sum_all(0)/(double)m)));
  }
#endif
}
int HM_a, HO_t, HC_i, HI_n; double HD_a; float HF_a;
#ifdef LINEAR
void hint_right(void){ HINT(rec_right(HO_t) == rec_right(0)); }
void hint_right2(void){ HINT(rec_right(HM_a) == rec_right(0)); }
void hint_start(void){ HINT(HM_a == 0 || (HM_a > 0 && HM_a < nt && valid(HM_a) && CE(HM_a) < X)); }
void hint_start0(void){ HINT(HM_a >= 0 && HM_a < nt); }
#define FIRST(t, s) ((t) == (s) && (t) > 0 && (t) < nt && valid(t) && CE(t) < X)
void hint_xl(void){ HINT(FIRST(HO_t, HM_a) || (rec_last(HO_t) < 0 ? HF_a < 0 : vc_same_f(HF_a, (float)CE(AT(rec_last(HO_t)))))); }
void hint_yl(void){ HINT(FIRST(HO_t, HM_a) || rec_last(HO_t) < 0 || vc_same_f(HF_a, (float)Y(AT(rec_last(HO_t))))); }
void hint_xr(void){ HINT(HF_a < 0); }
void hint_last(void){ HINT(rec_last(HO_t) < HO_t && (rec_last(HO_t) < 0 || CE(AT(rec_last(HO_t))) < X)); }
void hint_last2(void){ HINT(rec_last(HM_a) < HM_a && (rec_last(HM_a) < 0 || CE(AT(rec_last(HM_a))) < X)); }
#endif
#ifdef MOVING
void hint_sum(void){ HINT(vc_same_d(HD_a, (double)(rec_sum(0)-rec_sum(HO_t)))); }
void hint_num(void){ HINT(vc_same_d(HD_a, (double)(rec_num(0)-rec_num(HO_t)))); }
void hint_suma(void){ HINT(vc_same_d(HD_a, (double)(rec_sum_all(0)-rec_sum_all(HO_t)))); }
void hint_numa(void){ HINT(vc_same_d(HD_a, (double)(rec_num_all(0)-rec_num_all(HO_t)))); }
void hint_sumi(void){ HINT(HI_n == rec_sum(0)-rec_sum(HO_t)); }
void hint_numi(void){ HINT(HI_n == rec_num(0)-rec_num(HO_t)); }
void hint_sumai(void){ HINT(HI_n == rec_sum_all(0)-rec_sum_all(HO_t)); }
void hint_numai(void){ HINT(HI_n == rec_num_all(0)-rec_num_all(HO_t)); }
void hint_posa(void){ HINT(rec_num_all(0) >= rec_num_all(HO_t)); }
void hint_pos(void){ HINT(rec_num(0) >= rec_num(HO_t)); }
#define NOW_IN (HO_t > 0 && HO_t <= nt && HC_i >= 0 && HC_i < ni && ts.d_tsi[HC_i].ce-CE(HO_t-1) <= tsi.mov_max)
void hint_sum1(void){ HINT(NOW_IN || rec_sum(HO_t) == rec_sum(0)); }
void hint_num1(void){ HINT(NOW_IN || rec_num(HO_t) == rec_num(0)); }
void hint_sum2(void){ HINT(rec_sum(HM_a) == rec_sum(0)); }
void hint_num2(void){ HINT(rec_num(HM_a) == rec_num(0)); }
#endif
VC_MAIN

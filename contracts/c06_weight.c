//@ property: C06
//@ src: higher-level/bap-hl.c cross-level/brick_base-cl.c cross-level/alloc-cl.c
//@ fn: bap_weighting
#include "vc.h"
#include "higher-level/level3-hl.h"
#include "higher-level/bap-hl.h"
int nt, nb, nc, p, part, W_b, W_q, W_s, W_i, Q_b, ret;
ard_t *ard; level3_t l3; par_scr_t *score; int *tdist; par_bap_t rule; bool water; float hmean, hsd; short nodata;
short oldb, olds, oldi;

static bool eligible(int t){
  if (!ard[t].msk[p]) return false;
  if (!rule.offsea && score[t].d < 0.01) return false;
  if (!rule.use_hazy && rule.w.h > 0 && score[t].h < 0.01 && hmean > 0.01 && hsd > 0.01) return false;
  if (!rule.use_cloudy && rule.w.c > 0 && score[t].c < 0.01) return false;
  return true;
}
/* number, summed score and score-weighted sum of the eligible observations among the first t */
int rec_num(int t){ return t <= 0 ? 0 : rec_num(t-1) + (eligible(t-1) ? 1 : 0); }
double rec_tot(int t){ return t <= 0 ? 0 : eligible(t-1) ? rec_tot(t-1) + score[t-1].t : rec_tot(t-1); }
double rec_sum(int b, int t){ return t <= 0 ? 0 : eligible(t-1) ? rec_sum(b, t-1) + ard[t-1].dat[b][p]*score[t-1].t : rec_sum(b, t-1); }
/* sum of one of the partial scores of the eligible observations */
#define SC(t) (part == 0 ? score[t].d : part == 1 ? score[t].y : part == 2 ? score[t].c : part == 3 ? score[t].h : part == 4 ? score[t].r : score[t].v)
double rec_part(int t){ return t <= 0 ? 0 : eligible(t-1) ? rec_part(t-1) + SC(t-1) : rec_part(t-1); }

void pre(void){
  nt = DIM(1, 30000, 3); nb = DIM(1, 1000, 2); nc = DIM(1, 100000000, 2);
  p = vc_range(0, nc-1); W_b = vc_range(0, nb-1); W_q = vc_range(0, nc-1);
  W_s = vc_range(0, _SCR_LENGTH_-1); W_i = vc_range(0, _INF_LENGTH_-1);
  part = vc_range(0, 5);
  ard = STRUCTS(ard_t, nt);
  ROWS(ard, nt, .msk, small, nc);
  ROWS2(ard, nt, .dat, nb, short, nc);
  score = STRUCTS(par_scr_t, nt);
  EACHV(float, score, nt, .t); EACHV(float, score, nt, .d); EACHV(float, score, nt, .y); EACHV(float, score, nt, .c);
  EACHV(float, score, nt, .h); EACHV(float, score, nt, .r); EACHV(float, score, nt, .v);
  rule.offsea = vc_bool(); rule.use_hazy = vc_bool(); rule.use_cloudy = vc_bool(); rule.w.h = vc_float(); rule.w.c = vc_float();
  water = vc_bool(); hmean = vc_float(); hsd = vc_float(); nodata = vc_short();
  l3.scr = NULL; l3.inf = NULL; l3.bap = NULL;
  if (vc_bool()){ l3.scr = PTRS(short, _SCR_LENGTH_); ROWS(l3.scr, _SCR_LENGTH_, , short, nc); olds = l3.scr[W_s][W_q]; }
  if (vc_bool()){ l3.inf = PTRS(short, _INF_LENGTH_); ROWS(l3.inf, _INF_LENGTH_, , short, nc); oldi = l3.inf[W_i][W_q]; }
  if (vc_bool()){ l3.bap = PTRS(short, nb); ROWS(l3.bap, nb, , short, nc); oldb = l3.bap[W_b][W_q]; }
}
void run(void){ ret = bap_weighting(ard, &l3, nt, nb, nodata, p, score, tdist, hmean, hsd, water, &rule); }
#define FITS(x) ((x) > -32768.0 && (x) < 32767.0)
void post(void){
  int n = rec_num(nt);
  double tot = rec_tot(nt), sum = rec_sum(W_b, nt);
  ENSURE("compositing succeeds", ret == SUCCESS);
  if (W_q != p){
    if (l3.bap != NULL) ENSURE("other pixels of the composite are untouched", l3.bap[W_b][W_q] == oldb);
    if (l3.scr != NULL) ENSURE("other pixels of the scores are untouched", l3.scr[W_s][W_q] == olds);
    if (l3.inf != NULL) ENSURE("other pixels of the information are untouched", l3.inf[W_i][W_q] == oldi);
  }
  if (n == 0 || !(tot > 0)){
    if (l3.bap != NULL) ENSURE("without eligible observation the composite is nodata", l3.bap[W_b][p] == nodata);
    if (l3.scr != NULL) ENSURE("without eligible observation the scores are nodata", l3.scr[W_s][p] == nodata);
    if (l3.inf != NULL){
      ENSURE("without eligible observation the pixel is flagged off", l3.inf[_INF_QAI_][p] == 1);
      ENSURE("without eligible observation the count is 0", l3.inf[_INF_NUM_][p] == 0);
      ENSURE("without eligible observation the information is nodata", W_i < 2 || l3.inf[W_i][p] == nodata);
    }
    return;
  }
  if (l3.inf != NULL) ENSURE("count of eligible observations", l3.inf[_INF_NUM_][p] == n);
  if (l3.scr != NULL && FITS(tot/n*10000)) ENSURE("total score is the mean score", l3.scr[_SCR_TOTAL_][p] == (short)(tot/n*10000));
  if (l3.scr != NULL && !water && FITS(rec_part(nt)/n*10000)){
    short m = (short)(rec_part(nt)/n*10000);
    if (part == 0) ENSURE("day score is the mean score", l3.scr[_SCR_DOY_][p] == m);
    if (part == 1) ENSURE("year score is the mean score", l3.scr[_SCR_YEAR_][p] == m);
    if (part == 2) ENSURE("cloud distance score is the mean score", l3.scr[_SCR_DST_][p] == m);
    if (part == 3) ENSURE("haze score is the mean score", l3.scr[_SCR_HAZE_][p] == m);
    if (part == 4) ENSURE("correlation score is the mean score", l3.scr[_SCR_CORREL_][p] == m);
    if (part == 5) ENSURE("view angle score is the mean score", l3.scr[_SCR_VZEN_][p] == m);
  }
  if (l3.bap != NULL && FITS(sum/tot)) ENSURE("the composite is the score-weighted mean", l3.bap[W_b][p] == (short)(sum/tot));
}
int HI_n, HC_t; double HD_s; 
void hint_n(void){ HINT(HI_n == rec_num(HC_t)); }
void hint_np(void){ HINT(HI_n >= 0 && HI_n <= HC_t); }
void hint_s(void){ HINT(vc_same_d(HD_s, rec_tot(HC_t))); }
void hint_p0(void){ HINT(part != 0 || vc_same_d(HD_s, rec_part(HC_t))); }
void hint_p1(void){ HINT(part != 1 || vc_same_d(HD_s, rec_part(HC_t))); }
void hint_p2(void){ HINT(part != 2 || vc_same_d(HD_s, rec_part(HC_t))); }
void hint_p3(void){ HINT(part != 3 || vc_same_d(HD_s, rec_part(HC_t))); }
void hint_p4(void){ HINT(part != 4 || vc_same_d(HD_s, rec_part(HC_t))); }
void hint_p5(void){ HINT(part != 5 || vc_same_d(HD_s, rec_part(HC_t))); }
void hint_z(void){ HINT(HI_n > 0 || vc_same_d(HD_s, 0.0)); }
double *HPS;
void hint_m(void){ HINT(vc_same_d(HPS[W_b], rec_sum(W_b, HC_t))); }
void hint_m1(void){ HINT(vc_same_d(HPS[W_b], rec_sum(W_b, HC_t+1))); }
void hint_mn(void){ HINT(vc_same_d(HPS[W_b], rec_sum(W_b, nt))); }
void hint_mq(void){ HINT(vc_same_d(HPS[W_b], rec_sum(W_b, nt)/rec_tot(nt))); }
void hint_nd(void){ HINT(vc_same_d(HPS[W_b], (double)nodata)); }
VC_MAIN

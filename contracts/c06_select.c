//@ property: C06
//@ src: higher-level/bap-hl.c cross-level/brick_base-cl.c
//@ fn: bap_compositing
//@ variant: info
//@ variant: noinfo NOINF
#include "vc.h"
#include "higher-level/level3-hl.h"
#include "higher-level/bap-hl.h"
int nt, nb, nc, p, W_t, W_b, W_q, W_s, W_i, ret;
ard_t *ard; level3_t l3; par_scr_t *score; int *tdist; par_bap_t rule; bool water; float hmean, hsd; short nodata;
short oldb, olds, oldi;

static bool eligible(int t){
  if (!ard[t].msk[p]) return false;
  if (!rule.offsea && score[t].d < 0.01) return false;
  if (!rule.use_hazy && rule.w.h > 0 && score[t].h < 0.01 && hmean > 0.01 && hsd > 0.01) return false;
  if (!rule.use_cloudy && rule.w.c > 0 && score[t].c < 0.01) return false;
  return true;
}
/* number of eligible observations among the first t */
int rec_num(int t){ return t <= 0 ? 0 : rec_num(t-1) + (eligible(t-1) ? 1 : 0); }

void pre(void){
  int k;
  nt = DIM(1, 30000, 3); nb = DIM(1, 1000, 2); nc = DIM(1, 100000000, 2);
  p = vc_range(0, nc-1); W_t = vc_range(0, nt-1); W_b = vc_range(0, nb-1); W_q = vc_range(0, nc-1);
  W_s = vc_range(0, _SCR_LENGTH_-1); W_i = vc_range(0, _INF_LENGTH_-1);
  ard = STRUCTS(ard_t, nt);
  ROWS(ard, nt, .msk, small, nc);
  ROWS(ard, nt, .qai, short, nc);
  ROWS2(ard, nt, .dat, nb, short, nc);
  BRICKD(ard, nt, .DAT, 1, sid);
  score = STRUCTS(par_scr_t, nt);
  EACHV(float, score, nt, .t); EACHV(float, score, nt, .d); EACHV(float, score, nt, .y); EACHV(float, score, nt, .c);
  EACHV(float, score, nt, .h); EACHV(float, score, nt, .r); EACHV(float, score, nt, .v);
  tdist = ARR(int, nt);
  rule.offsea = vc_bool(); rule.use_hazy = vc_bool(); rule.use_cloudy = vc_bool(); rule.w.h = vc_float(); rule.w.c = vc_float();
  water = vc_bool(); hmean = vc_float(); hsd = vc_float(); nodata = vc_short();
  l3.scr = NULL; l3.inf = NULL; l3.bap = NULL;
  if (vc_bool()){ l3.scr = PTRS(short, _SCR_LENGTH_); ROWS(l3.scr, _SCR_LENGTH_, , short, nc); olds = l3.scr[W_s][W_q]; }
#ifndef NOINF
  l3.inf = PTRS(short, _INF_LENGTH_); ROWS(l3.inf, _INF_LENGTH_, , short, nc); oldi = l3.inf[W_i][W_q];
#endif
  if (vc_bool()){ l3.bap = PTRS(short, nb); ROWS(l3.bap, nb, , short, nc); oldb = l3.bap[W_b][W_q]; }
}
void run(void){ ret = bap_compositing(ard, &l3, nt, nb, nodata, p, score, tdist, hmean, hsd, water, &rule); }
#define FITS(x) ((x) > -32768.0 && (x) < 32767.0)
void post(void){
  int n = rec_num(nt), k;
  ENSURE("compositing succeeds", ret == SUCCESS);
  if (W_q != p){
    if (l3.bap != NULL) ENSURE("other pixels of the composite are untouched", l3.bap[W_b][W_q] == oldb);
    if (l3.scr != NULL) ENSURE("other pixels of the scores are untouched", l3.scr[W_s][W_q] == olds);
    if (l3.inf != NULL) ENSURE("other pixels of the information are untouched", l3.inf[W_i][W_q] == oldi);
  }
  if (n == 0){
    if (l3.bap != NULL) ENSURE("without eligible observation the composite is nodata", l3.bap[W_b][p] == nodata);
    if (l3.scr != NULL) ENSURE("without eligible observation the scores are nodata", l3.scr[W_s][p] == nodata);
    if (l3.inf != NULL){
      ENSURE("without eligible observation the pixel is flagged off", l3.inf[_INF_QAI_][p] == 1);
      ENSURE("without eligible observation the count is 0", l3.inf[_INF_NUM_][p] == 0);
      ENSURE("without eligible observation the information is nodata", W_i < 2 || l3.inf[W_i][p] == nodata);
    }
    return;
  }
#ifndef NOINF
  k = l3.inf[_INF_SEN_][p]-1;
  ENSURE("one of the observations is selected", k >= 0 && k < nt);
  if (!(k >= 0 && k < nt)) return;
  ENSURE("the selected observation is eligible", eligible(k));
  ENSURE("no eligible observation has a higher score", !eligible(W_t) || !(score[W_t].t > score[k].t));
  ENSURE("count of eligible observations", l3.inf[_INF_NUM_][p] == n);
  ENSURE("quality of the selected observation", l3.inf[_INF_QAI_][p] == ard[k].qai[p]);
  ENSURE("day of the selected observation", l3.inf[_INF_DOY_][p] == (short)ard[k].DAT->date[0].doy);
  ENSURE("year of the selected observation", l3.inf[_INF_YEAR_][p] == (short)ard[k].DAT->date[0].year);
  ENSURE("distance of the selected observation", l3.inf[_INF_DIFF_][p] == (short)tdist[k]);
  if (l3.bap != NULL) ENSURE("all bands come from the selected observation", l3.bap[W_b][p] == ard[k].dat[W_b][p]);
  if (l3.scr != NULL){
    if (FITS(score[k].t*10000)) ENSURE("total score of the selected observation", l3.scr[_SCR_TOTAL_][p] == (short)(score[k].t*10000));
    if (!water){
      if (FITS(score[k].d*10000)) ENSURE("day score of the selected observation", l3.scr[_SCR_DOY_][p] == (short)(score[k].d*10000));
      if (FITS(score[k].y*10000)) ENSURE("year score of the selected observation", l3.scr[_SCR_YEAR_][p] == (short)(score[k].y*10000));
      if (FITS(score[k].c*10000)) ENSURE("cloud distance score of the selected observation", l3.scr[_SCR_DST_][p] == (short)(score[k].c*10000));
      if (FITS(score[k].h*10000)) ENSURE("haze score of the selected observation", l3.scr[_SCR_HAZE_][p] == (short)(score[k].h*10000));
      if (FITS(score[k].r*10000)) ENSURE("correlation score of the selected observation", l3.scr[_SCR_CORREL_][p] == (short)(score[k].r*10000));
      if (FITS(score[k].v*10000)) ENSURE("view angle score of the selected observation", l3.scr[_SCR_VZEN_][p] == (short)(score[k].v*10000));
    }
  }
#endif
}
int HI_m, HI_n, HC_t; double HD_s;
void hint_range(void){ HINT(HI_m >= -1 && HI_m < HC_t); }
void hint_n(void){ HINT(HI_n == rec_num(HC_t)); }
void hint_any(void){ HINT((HI_n > 0) == (HI_m >= 0)); }
void hint_npos(void){ HINT(HI_n >= 0 && HI_n <= HC_t); }
void hint_el(void){ HINT(!(HI_m >= 0 && HI_m < nt) || eligible(HI_m)); }
void hint_s(void){ HINT(!(HI_m >= 0 && HI_m < nt) || vc_same_d(score[HI_m].t, HD_s)); }
void hint_best(void){ HINT(!(W_t < HC_t && eligible(W_t)) || (HI_m >= 0 && !(score[W_t].t > HD_s))); }
void hint_best2(void){ HINT(!(W_t < HC_t && eligible(W_t)) || (HI_m >= 0 && HI_m < nt && !(score[W_t].t > score[HI_m].t))); }
VC_MAIN

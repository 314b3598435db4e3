//@ property: C02
//@ src: higher-level/quality-hl.c cross-level/quality-cl.c cross-level/brick_base-cl.c
//@ fn: screen_qai use_this_pixel
//@ assume: copy_brick and the number of pixels of a block are those of the input image (copy_brick itself is decided by C15)
#include "vc.h"
#include "higher-level/quality-hl.h"
#include "c01.h"
int nt, nc, W_p, W_t, Q_k, HC_t, input_level, ret, lev;
ard_t *ard; par_qai_t rule; brick_t *mask; brick_t maskbrick; brick_t **pool;
short word; 

/* contract of copy_brick as used here (decided by C15): a new one-band byte image of the same size, or NULL */
brick_t *stub_copy_brick(brick_t *from, int nb, int datatype){
  ENSURE("the screening result has one byte band per acquisition", nb == 1 && datatype == _DT_SMALL_);
  if (vc_range(0, 30) == 0) return NULL;
  return pool[from->sid];
}
int stub_get_brick_chunkncells(brick_t *b){ return nc; }

void pre(void){
  nt = DIM(1, 100000, 2); nc = DIM(1, 100000000, 3);
  W_p = vc_range(0, nc-1); W_t = vc_range(0, nt-1);
  input_level = vc_bool() ? _INP_ARD_ : vc_bool() ? _INP_QAI_ : _INP_FTR_;
  rule.off = vc_bool(); rule.cld_opq = vc_bool(); rule.cld_unc = vc_bool(); rule.cld_cir = vc_bool(); rule.shd = vc_bool();
  rule.snw = vc_bool(); rule.wtr = vc_bool(); rule.aod_fill = vc_bool(); rule.aod_high = vc_bool(); rule.aod_int = vc_bool();
  rule.sub = vc_bool(); rule.sat = vc_bool(); rule.sun = vc_bool(); rule.ill_shd = vc_bool(); rule.ill_poor = vc_bool();
  rule.ill_low = vc_bool(); rule.slp = vc_bool(); rule.wvp = vc_bool();
  ard = STRUCTS(ard_t, nt);
  BRICKS(ard, nt, .QAI, 1, short, vshort, nc, sid);
  pool = PTRS(brick_t, nt);
  BRICKS(pool, nt, , 1, small, vsmall, nc, sid);
  mask = NULL;
  if (vc_bool()){
    mask = &maskbrick;
    mask->vsmall = PTRS(small, 1);
    mask->vsmall[0] = ARR(small, nc);
  }
  word = ard[W_t].QAI->vshort[0][W_p];
}
void run(void){ ret = screen_qai(ard, nt, mask, &rule, input_level); }
/* documented meaning of each screening option */
static bool rejected(short w){
  if (rule.off && field(w, 0)) return true;
  if (input_level == _INP_FTR_ && field(w, 0)) return true;
  if (rule.cld_unc && field(w, 1) == 1) return true;
  if (rule.cld_opq && field(w, 1) == 2) return true;
  if (rule.cld_cir && field(w, 1) == 3) return true;
  if (rule.shd && field(w, 2)) return true;
  if (rule.snw && field(w, 3)) return true;
  if (rule.wtr && field(w, 4)) return true;
  if (rule.aod_int && field(w, 5) == 1) return true;
  if (rule.aod_high && field(w, 5) == 2) return true;
  if (rule.aod_fill && field(w, 5) == 3) return true;
  if (rule.sub && field(w, 6)) return true;
  if (rule.sat && field(w, 7)) return true;
  if (rule.sun && field(w, 8)) return true;
  if (rule.ill_low && field(w, 9) == 1) return true;
  if (rule.ill_poor && field(w, 9) == 2) return true;
  if (rule.ill_shd && field(w, 9) == 3) return true;
  if (rule.slp && field(w, 10)) return true;
  if (rule.wvp && field(w, 11)) return true;
  return false;
}
void post(void){
  bool in = mask == NULL || mask->vsmall[0][W_p];
  if (ret != SUCCESS) return;
  ENSURE("pixel is used exactly if inside the mask and no selected flag rejects it", (ard[W_t].msk[W_p] != 0) == (in && !rejected(word)));
  ENSURE("quality words are not changed", ard[W_t].QAI->vshort[0][W_p] == word);
}
int HI_e;
void hint_alloc_ok(void){ HINT(HI_e > 0 || !(0 <= Q_k && Q_k < HC_t && HC_t <= nt) || ard[Q_k].msk == pool[Q_k]->vsmall[0]); }
void hint_alloc(void){ HINT(!(0 <= Q_k && Q_k < HC_t && HC_t <= nt) || ard[Q_k].msk == pool[Q_k]->vsmall[0]); }
VC_MAIN

//@ property: C18
//@ src: lower-level/read-ll.c cross-level/quality-cl.c cross-level/brick_base-cl.c cross-level/alloc-cl.c
//@ fn: bounds_level1 set_off set_saturation set_qai
//@ assume: the option to widen nodata by one pixel and impulse noise filtering are off
#include "vc.h"
#include "lower-level/read-ll.h"
int nb, nc, b_temp, b_cirrus, W_p, ret; brick_t dn, *qai, *out; meta_t meta; par_ll_t pl2;

/* contract of copy_brick as used here (unit c15_copy): same description, values 0 */
brick_t *stub_copy_brick(brick_t *f, int n, int datatype){
  ENSURE("one quality layer", n == 1 && datatype == _DT_SHORT_);
  return qai;
}
/* contract of find_domain: the band with that domain, -1 without */
int stub_find_domain(brick_t *b, const char *domain){ return domain[0] == 'T' ? b_temp : domain[0] == 'C' ? b_cirrus : -1; }
void stub_set_brick_name(brick_t *b, const char *s){}
void stub_set_brick_product(brick_t *b, const char *s){}
void stub_set_brick_filename(brick_t *b, const char *s){}
void stub_set_brick_domain(brick_t *b, int i, const char *s){}
void stub_set_brick_bandname(brick_t *b, int i, const char *s){}

#define VOID(b) ((b) != b_cirrus && dn.vushort[b][W_p] == 0)
#define SAT(b) ((b) != b_temp && dn.vushort[b][W_p] >= meta.sat)
/* is any band from b on empty / saturated? */
int rec_void(int b){ return b >= nb ? 0 : VOID(b) ? 1 : rec_void(b+1); }
int rec_sat(int b){ return b >= nb ? 0 : SAT(b) ? 1 : rec_sat(b+1); }

void pre(void){
  nb = DIM(1, 30, 4); nc = DIM(1, 400000000, 4); W_p = vc_range(0, nc-1);
  b_temp = vc_range(-1, nb-1); b_cirrus = vc_range(-1, nb-1);
  ASSUME(b_temp != b_cirrus || b_temp < 0);
  meta.sat = vc_range(1, 65535); meta.dtype = vc_range(1, 16);
  pl2.bufnodata = 0; pl2.impulse = 0;
  dn.nb = nb; dn.nc = nc; dn.nx = vc_range(1, 40000); dn.ny = vc_range(1, 40000); dn.datatype = _DT_USHORT_;
  dn.vushort = PTRS(ushort, nb); ROWS(dn.vushort, nb, , ushort, nc);
#ifndef VC_GVC
  for (int b = 0; b < nb; b++) for (int p = 0; p < nc; p++) { int k = vc_range(0, 3); if (k == 0) dn.vushort[b][p] = 0; if (k == 1) dn.vushort[b][p] = meta.sat; }
#endif
  qai = STRUCTS(brick_t, 1); qai->nb = 1; qai->nc = nc; qai->nx = dn.nx; qai->ny = dn.ny; qai->datatype = _DT_SHORT_;
  qai->nodata = ARR(int, 1); qai->wavelength = ARR(float, 1); qai->scale = ARR(float, 1);
  qai->vshort = PTRS(short, 1); ROWS(qai->vshort, 1, , short, nc);
  EACH(qai->vshort[0], nc, , 0, 0);
}
void run(void){ ret = bounds_level1(&meta, &dn, &out, &pl2); }
#define ANYVOID (rec_void(0) != 0)
#define ANYSAT (rec_sat(0) != 0)
#define FLAG(k) ((qai->vshort[0][W_p] >> (k)) & 1)
void post(void){
  ENSURE("without thermal band the image is accepted", ret == SUCCESS || b_temp >= 0);
  if (ret == FAILURE) ENSURE("rejected only if no pixel is complete", ANYVOID);
  if (ret == SUCCESS){
    ENSURE("returns the quality layer", out == qai);
    ENSURE("nodata exactly if a band is empty", FLAG(0) == ANYVOID);
    if (!ANYVOID) ENSURE("saturated exactly if a band is saturated", FLAG(9) == ANYSAT);
  }
}
int HC_b, HO_p, HC_p, HI_t; small *HPo; bool HB_f;
#define Q qai->vshort[0][W_p]
void hint_v(void){ HINT(rec_void(HC_b) == rec_void(0)); }
void hint_vo(void){ HINT(HPo[W_p] == 1 ? ANYVOID : HPo[W_p] == 0 && rec_void(HC_b) == rec_void(0)); }
void hint_vb(void){ HINT(HB_f ? ANYVOID : rec_void(HC_b) == rec_void(0)); }
void hint_o(void){ HINT(HPo[W_p] == ANYVOID); }
void hint_z(void){ HINT(HPo[W_p] == 0); }
void hint_q(void){ HINT(Q == 0 || Q == 512); }
void hint_q0(void){ HINT(Q == 0); }
void hint_qo(void){ HINT((Q == 1 || Q == 513) == ANYVOID); }
void hint_qr(void){ HINT(Q >= 0 && Q < 1024); }
void hint_s(void){ HINT((Q == 512 || rec_sat(HC_b)) == ANYSAT); }
void hint_s0(void){ HINT(ANYVOID || Q == 512*ANYSAT); }
void hint_t(void){ HINT(HI_t > 0 || ANYVOID || b_temp < 0); }
void hint_t1(void){ HINT(HI_t > 0 || HC_b <= b_temp || b_temp < 0); }
void hint_tp(void){ HINT(HI_t <= HO_p); }
void hint_tq(void){ HINT(HI_t <= HC_p + (HO_p > b_temp)); }
VC_MAIN

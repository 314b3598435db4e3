//@ property: C17
//@ src: lower-level/atmo-ll.c cross-level/quality-cl.c cross-level/brick_base-cl.c
//@ fn: compile_l2_hot compile_l2_wvp get_off get_qai
//@ variant: haze HAZE=1
//@ variant: vapour HAZE=0
//@ assume: no reprojection; names and other text metadata are not followed
#include "vc.h"
#include "lower-level/atmo-ll.h"
int nc, W_p; brick_t qai, toa, *prd, *out; short q0, *blue, *red; par_ll_t pl2; cube_t cube; atc_t atc;
brick_t *compile_l2_hot(par_ll_t *pl2, cube_t *cube, brick_t *TOA, brick_t *QAI);
brick_t *compile_l2_wvp(par_ll_t *pl2, atc_t *atc, cube_t *cube, brick_t *QAI, brick_t *WVP);
/* contract of copy_brick as used here (unit c15_copy) */
brick_t *stub_copy_brick(brick_t *f, int n, int datatype){
  ENSURE("one band like the quality layer", f == &qai && n == 1 && datatype == _DT_SHORT_);
  return prd;
}
short *stub_get_domain_short(brick_t *b, const char *domain){ return domain[0] == 'B' ? blue : domain[0] == 'R' ? red : NULL; }
void stub_set_brick_product(brick_t *b, const char *s){}
void stub_set_brick_name(brick_t *b, const char *s){}
void stub_set_brick_filename(brick_t *b, const char *s){}
void stub_set_brick_domain(brick_t *b, int i, const char *s){}
void stub_set_brick_bandname(brick_t *b, int i, const char *s){}
void stub_set_brick_unit(brick_t *b, int i, const char *s){}
void stub_set_brick_format(brick_t *b, gdalopt_t *f){}
void stub_get_brick_sensor(brick_t *b, int i, char s[], size_t n){ s[0] = 0; }
void stub_get_brick_compactdate(brick_t *b, int i, char s[], size_t n){ s[0] = 0; }
void stub_copy_string(char *d, size_t n, const char *s){ d[0] = 0; }
void pre(void){
  nc = DIM(1, 400000000, 4); W_p = vc_range(0, nc-1);
  pl2.doreproj = 0; pl2.doatmo = vc_range(0, 1); atc.wvp = vc_range(0, 15000)/1000.0f;
  qai.nb = 1; qai.nc = nc; qai.datatype = _DT_SHORT_; qai.vshort = PTRS(short, 1); ROWS(qai.vshort, 1, , short, nc);
  prd = STRUCTS(brick_t, 1); prd->nb = 1; prd->nc = nc; prd->datatype = _DT_SHORT_; prd->vshort = PTRS(short, 1); ROWS(prd->vshort, 1, , short, nc);
  prd->nodata = ARR(int, 1); prd->scale = ARR(float, 1); prd->wavelength = ARR(float, 1);
  blue = ARR(short, nc); red = ARR(short, nc);
  q0 = qai.vshort[0][W_p];
}
void run(void){
#if HAZE
  out = compile_l2_hot(&pl2, &cube, &toa, &qai);
#else
  out = compile_l2_wvp(&pl2, &atc, &cube, &qai, NULL);
#endif
}
#define V prd->vshort[0][W_p]
void post(void){
  ENSURE("quality layer unchanged", qai.vshort[0][W_p] == q0);
  if (q0 & 1) ENSURE("nodata pixels are nodata in the product", V == -9999);
#if HAZE
  else { double h = blue[W_p]-0.5*red[W_p]-800; if (h > -32769 && h < 32768) ENSURE("haze index", V == (short)h); }
#else
  else ENSURE("water vapour", V == (pl2.doatmo ? (short)(atc.wvp*1000) : -9999));
#endif
  if (out != NULL) ENSURE("product with its nodata value", out == prd && prd->nodata[0] == -9999);
}
VC_MAIN

//@ property: C17
//@ src: lower-level/atmo-ll.c cross-level/quality-cl.c cross-level/brick_base-cl.c
//@ fn: apply_aoi set_off set_qai
//@ assume: the area-of-interest image is released after use (free_brick)
#include "vc.h"
#include "lower-level/atmo-ll.h"
int nc, W_p, ret, freed; bool none; brick_t qai, aoi; short q0; small inside;
int apply_aoi(brick_t *QAI, brick_t *AOI);
void stub_free_brick(brick_t *b){ ENSURE("only the area of interest is released", b == &aoi); freed++; }
void pre(void){
  nc = DIM(1, 400000000, 4); W_p = vc_range(0, nc-1); none = vc_bool(); freed = 0;
  qai.nb = 1; qai.nc = nc; qai.datatype = _DT_SHORT_; qai.vshort = PTRS(short, 1); ROWS(qai.vshort, 1, , short, nc);
  aoi.nb = 1; aoi.nc = nc; aoi.datatype = _DT_SMALL_; aoi.vsmall = PTRS(small, 1); ROWS(aoi.vsmall, 1, , small, nc);
#ifndef VC_GVC
  for (int p = 0; p < nc; p++) if (vc_bool()) aoi.vsmall[0][p] = 0;
#endif
  q0 = qai.vshort[0][W_p]; inside = aoi.vsmall[0][W_p];
}
void run(void){ ret = apply_aoi(&qai, none ? NULL : &aoi); }
#define Q qai.vshort[0][W_p]
void post(void){
  ENSURE("an area of interest is used where there is one", ret == (none ? CANCEL : SUCCESS));
  if (none || inside) ENSURE("pixels inside keep their flags", Q == q0);
  else ENSURE("pixels outside become nodata, other flags unchanged", Q == ((q0 & 1) ? q0 : q0+1));
}
void hint_u(void){ HINT(Q == q0); }
VC_MAIN

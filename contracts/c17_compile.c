//@ property: C17
//@ src: lower-level/atmo-ll.c cross-level/quality-cl.c cross-level/brick_base-cl.c
//@ fn: compile_l2_qai get_off get_qai
//@ assume: no reprojection; names and other text metadata are not followed
#include "vc.h"
#include "lower-level/atmo-ll.h"
int nc, W_p; brick_t qai, *out; short q0; par_ll_t pl2; cube_t cube;
brick_t *compile_l2_qai(par_ll_t *pl2, cube_t *cube, brick_t *QAI);
/* reprojection is not followed: off here (the flags may then be taken from other positions) */
void stub_set_brick_product(brick_t *b, const char *s){}
void stub_set_brick_name(brick_t *b, const char *s){}
void stub_set_brick_filename(brick_t *b, const char *s){}
void stub_set_brick_domain(brick_t *b, int i, const char *s){}
void stub_set_brick_bandname(brick_t *b, int i, const char *s){}
void stub_set_brick_unit(brick_t *b, int i, const char *s){}
void stub_set_brick_format(brick_t *b, gdalopt_t *f){}
void stub_get_brick_sensor(brick_t *b, int i, char s[], size_t n){ s[0] = 0; }
void stub_get_brick_compactdate(brick_t *b, int i, char s[], size_t n){ s[0] = 0; }
void stub_copy_string(char *d, size_t n, const char *s){ d[0] = 0; }
void pre(void){
  nc = DIM(1, 400000000, 4); W_p = vc_range(0, nc-1); pl2.doreproj = 0;
  qai.nb = 1; qai.nc = nc; qai.datatype = _DT_SHORT_; qai.vshort = PTRS(short, 1); ROWS(qai.vshort, 1, , short, nc);
  qai.nodata = ARR(int, 1); qai.scale = ARR(float, 1); qai.wavelength = ARR(float, 1);
  q0 = qai.vshort[0][W_p];
}
void run(void){ out = compile_l2_qai(&pl2, &cube, &qai); }
#define Q qai.vshort[0][W_p]
void post(void){
  if (out != NULL) ENSURE("returns the quality layer", out == &qai && qai.nodata[0] == 1);
  if (q0 & 1) ENSURE("nodata pixels carry no other flag", Q == 1);
  else ENSURE("other pixels keep their flags", Q == q0);
}
void hint_u(void){ HINT(Q == q0); }
VC_MAIN

//@ property: C18
//@ src: lower-level/read-ll.c cross-level/quality-cl.c cross-level/brick_base-cl.c
//@ fn: convert_level1 get_off set_off get_qai set_qai
//@ opt: hint_guards2=true
//@ lib: m
//@ variant: landsat S2=0
//@ variant: sentinel2 S2=1
//@ assume: earth-sun distance and the position in the coarse angle grid are arbitrary values
#include "vc.h"
#include <math.h>
#include <float.h>
#include <limits.h>
#include "lower-level/read-ll.h"
int nb, nc, ng, b_temp, b_cirrus, W_p, W_b, ret, *cell; short q0; int off0, Q_b; float dsun, pi_dsun2, *irr, *sun;
brick_t dn, *toa, *out, qai, grid; meta_t meta; atc_t atc;

/* contract of copy_brick as used here (unit c15_copy): same description, values 0 */
brick_t *stub_copy_brick(brick_t *f, int n, int datatype){
  ENSURE("as many bands", n == nb && datatype == _DT_SHORT_);
  return toa;
}
/* contract of find_domain: the band with that domain, -1 without */
int stub_find_domain(brick_t *b, const char *domain){ return domain[0] == 'T' ? b_temp : domain[0] == 'C' ? b_cirrus : -1; }
/* the cell of the coarse grid of sun angles: any */
int stub_convert_brick_p2p(brick_t *from, brick_t *to, int p){
  ENSURE("sun angle looked up for a pixel of the image", p >= 0 && p < nc);
  return cell[p < 0 || p >= nc ? 0 : p];
}
float stub_doy2dsun(int doy){ return dsun; }
void stub_set_brick_name(brick_t *b, const char *s){}
void stub_set_brick_product(brick_t *b, const char *s){}
void stub_set_brick_filename(brick_t *b, const char *s){}

#define D(b) dn.vushort[b][W_p]
#define C(b) meta.cal[b]
#define S sun[cell[W_p]]
#define GAIN(b) ((C(b).lmax-C(b).lmin)/(C(b).qmax-C(b).qmin))
#define RAD(b) (GAIN(b)*(D(b)-C(b).qmin)+C(b).lmin)
float temperature(int b){ return C(b).k2/log((C(b).k1/RAD(b))+1)*toa->scale[b]; }
float reflectance(int b){ return C(b).rmul == C(b).fill ? RAD(b)*pi_dsun2/(irr[b]*S) : (C(b).radd+C(b).rmul*D(b))/S; }
/* some band before b is without light: the pixel is given up */
int rec_dark(int b){ return b <= 0 ? 0 : rec_dark(b-1) ? 1 : b-1 != b_temp && b-1 != b_cirrus && reflectance(b-1) < FLT_MIN ? 1 : 0; }
short cap(float v){ return v < SHRT_MAX ? (short)v : SHRT_MAX; }
short expected(int b){
#if S2
  return cap((D(b)+C(b).radd)/dn.scale[b]*toa->scale[b]);
#else
  if (off0 || rec_dark(b) != 0) return -9999;
  if (b == b_temp) return cap(temperature(b));
  if (reflectance(b) < FLT_MIN) return b == b_cirrus ? 0 : -9999;
  return cap(reflectance(b)*toa->scale[b]);
#endif
}

void pre(void){
  nb = DIM(1, 30, 3); nc = DIM(1, 400000000, 3); ng = DIM(1, 1000000, 2);
  W_p = vc_range(0, nc-1); W_b = vc_range(0, nb-1);
  b_temp = vc_range(-1, nb-1); b_cirrus = vc_range(-1, nb-1);
  dsun = vc_float(); pi_dsun2 = M_PI*dsun*dsun;
  meta.cal = STRUCTS(cal_t, nb);
  EACHV(float, meta.cal, nb, .lmin); EACHV(float, meta.cal, nb, .lmax); EACHV(float, meta.cal, nb, .qmin); EACHV(float, meta.cal, nb, .qmax);
  EACHV(float, meta.cal, nb, .rmul); EACHV(float, meta.cal, nb, .radd); EACHV(float, meta.cal, nb, .k1); EACHV(float, meta.cal, nb, .k2);
  EACH(meta.cal, nb, .fill, -9999, -9999);
  irr = ARR(float, nb); atc.E0 = irr; atc.xy_sun = &grid;
  grid.vfloat = PTRS(float, 8); ROWS(grid.vfloat, 8, , float, ng); sun = grid.vfloat[cZEN];
  cell = ARR(int, nc); EACH(cell, nc, , 0, ng-1);
  dn.nb = nb; dn.nc = nc; dn.datatype = _DT_USHORT_;
  dn.scale = ARR(float, nb);
  dn.vushort = PTRS(ushort, nb); ROWS(dn.vushort, nb, , ushort, nc);
  toa = STRUCTS(brick_t, 1); toa->nb = nb; toa->nc = nc; toa->datatype = _DT_SHORT_; toa->date = DATES(nb);
  toa->nodata = ARR(int, nb); toa->scale = ARR(float, nb);
  toa->vshort = PTRS(short, nb); ROWS(toa->vshort, nb, , short, nc);
  qai.nb = 1; qai.nc = nc; qai.datatype = _DT_SHORT_; qai.vshort = PTRS(short, 1); ROWS(qai.vshort, 1, , short, nc);
#ifndef VC_GVC
  for (int b = 0; b < nb; b++) dn.scale[b] = 10000;
  for (int b = 0; b < nb; b++){
    if (vc_bool()) meta.cal[b].rmul = -9999; else { meta.cal[b].rmul = 2e-5; meta.cal[b].radd = -0.1; }
    meta.cal[b].lmin = -1.5; meta.cal[b].lmax = 200; meta.cal[b].qmin = 1; meta.cal[b].qmax = 65535; meta.cal[b].k1 = 700; meta.cal[b].k2 = 1300; irr[b] = 1500;
    if (vc_bool()) for (int p = 0; p < nc; p++) if (vc_bool()) dn.vushort[b][p] = vc_range(1, 6000);
  }
  dsun = 1; pi_dsun2 = M_PI*dsun*dsun;
  for (int g = 0; g < ng; g++) grid.vfloat[cZEN][g] = vc_range(1, 100)/100.0;
#endif
  q0 = qai.vshort[0][W_p]; off0 = q0 & 1;
}
void run(void){ ret = convert_level1(&meta, S2 ? SENTINEL2 : LANDSAT, &atc, &dn, &out, &qai); }
#define TV toa->vshort[W_b][W_p]
/* flags of the pixel if only the bands before b count */
#define FLAGS(b) (S2 || off0 || rec_dark(b) == 0 ? q0 : q0+1)
void post(void){
  ENSURE("succeeds", ret == SUCCESS && out == toa);
  ENSURE("calibrated value, or nodata", TV == expected(W_b));
  ENSURE("nodata exactly if it was, or a band is without light", qai.vshort[0][W_p] == FLAGS(nb));
  ENSURE("scale factors", toa->scale[W_b] == (W_b == b_temp ? 100 : 10000) && toa->nodata[W_b] == -9999);
}
int HC_b, HO_p;
void hint_o(void){ HINT(qai.vshort[0][W_p] == FLAGS(HC_b)); }
void hint_o1(void){ HINT(qai.vshort[0][W_p] == FLAGS(HC_b+1)); }
void hint_s(void){ HINT(Q_b < 0 || Q_b >= HC_b || vc_same_f(toa->scale[Q_b], Q_b == b_temp ? (float)100 : (float)10000)); }
VC_MAIN

//@ property: C01
//@ src: cross-level/quality-cl.c
//@ fn: set_qai get_qai set_off set_cloud set_shadow set_snow set_water set_aerosol set_subzero set_saturation set_lowsun set_illumination set_slope set_vaporfill get_off get_cloud get_shadow get_snow get_water get_aerosol get_subzero get_saturation get_lowsun get_illumination get_slope get_vaporfill
#include "vc.h"
#include "cross-level/quality-cl.h"
#include "c01.h"
brick_t qai; int nb, nc, p, W_p;

void pre(void){
  nb = DIM(1, 100, 2); nc = DIM(1, 400000000, 3);
  p = vc_range(0, nc-1); W_p = vc_range(0, nc-1);
  qai.vshort = PTRS(short, nb);
  ROWS(qai.vshort, nb, , short, nc);
}
static int set_get(int flag, int val){
  switch (flag){
    case 0: set_off(&qai, p, val); return get_off(&qai, p);
    case 1: set_cloud(&qai, p, val); return get_cloud(&qai, p);
    case 2: set_shadow(&qai, p, val); return get_shadow(&qai, p);
    case 3: set_snow(&qai, p, val); return get_snow(&qai, p);
    case 4: set_water(&qai, p, val); return get_water(&qai, p);
    case 5: set_aerosol(&qai, p, val); return get_aerosol(&qai, p);
    case 6: set_subzero(&qai, p, val); return get_subzero(&qai, p);
    case 7: set_saturation(&qai, p, val); return get_saturation(&qai, p);
    case 8: set_lowsun(&qai, p, val); return get_lowsun(&qai, p);
    case 9: set_illumination(&qai, p, val); return get_illumination(&qai, p);
    case 10: set_slope(&qai, p, val); return get_slope(&qai, p);
    default: set_vaporfill(&qai, p, val); return get_vaporfill(&qai, p);
  }
}
/* one flag with one legal value, starting from an arbitrary word */
static void one(int flag, int val, short word, short other){
  int g, got;
  qai.vshort[0][p] = word;
  got = set_get(flag, val);
  ENSURE("reading the flag returns the value written", got == val);
  ENSURE("the value is stored in the flag's own documented bits", field(qai.vshort[0][p], flag) == val);
  for (g = 0; g <= 12; g++)
    ENSURE("other flags of the pixel are unchanged", g == flag || field(qai.vshort[0][p], g) == field(word, g));
  ENSURE("other pixels are unchanged", W_p == p || qai.vshort[0][W_p] == other);
}
void run(void){
  int f, v; short word = qai.vshort[0][p], other = qai.vshort[0][W_p];
  for (f = 0; f < 12; f++)
    for (v = 0; v < NVAL(f); v++) one(f, v, word, other);
}
void post(void){}
VC_MAIN

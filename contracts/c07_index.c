//@ property: C07
//@ src: higher-level/index-compute-hl.c
//@ fn: tsa_spectral_index
//@ variant: BAND NAME="BAND" KIND=0 NB=1 
//@ variant: NDVI NAME="NDVI" KIND=1 NB=2 
//@ variant: EVI NAME="EVI" KIND=2 NB=3 RES=2.5f,6.0f,7.5f,1.0f,0
//@ variant: NBR NAME="NBR" KIND=1 NB=2 
//@ variant: NDTI NAME="NDTI" KIND=1 NB=2 
//@ variant: ARVI NAME="ARVI" KIND=2 NB=3 RES=1.0f,1.0f,0.0f,0.0f,1
//@ variant: SAVI NAME="SAVI" KIND=2 NB=3 RES=1.5f,1.0f,0.0f,0.5f,0
//@ variant: SARVI NAME="SARVI" KIND=2 NB=3 RES=1.5f,1.0f,0.0f,0.5f,1
//@ variant: TC-BRIGHT NAME="TC-BRIGHT" KIND=3 NB=6 TCK=0
//@ variant: TC-GREEN NAME="TC-GREEN" KIND=3 NB=6 TCK=1
//@ variant: TC-WET NAME="TC-WET" KIND=3 NB=6 TCK=2
//@ variant: TC-DI NAME="TC-DI" KIND=3 NB=6 TCK=3
//@ variant: NDBI NAME="NDBI" KIND=1 NB=2 
//@ variant: NDWI NAME="NDWI" KIND=1 NB=2 
//@ variant: MNDWI NAME="MNDWI" KIND=1 NB=2 
//@ variant: NDMI NAME="NDMI" KIND=1 NB=2 
//@ variant: NDSI NAME="NDSI" KIND=1 NB=2 
//@ variant: kNDVI NAME="kNDVI" KIND=4 NB=2 
//@ variant: NDRE1 NAME="NDRE1" KIND=1 NB=2 
//@ variant: NDRE2 NAME="NDRE2" KIND=1 NB=2 
//@ variant: CIre NAME="CIre" KIND=5 NB=2 
//@ variant: NDVIre1 NAME="NDVIre1" KIND=1 NB=2 
//@ variant: NDVIre2 NAME="NDVIre2" KIND=1 NB=2 
//@ variant: NDVIre3 NAME="NDVIre3" KIND=1 NB=2 
//@ variant: NDVIre1n NAME="NDVIre1n" KIND=1 NB=2 
//@ variant: NDVIre2n NAME="NDVIre2n" KIND=1 NB=2 
//@ variant: NDVIre3n NAME="NDVIre3n" KIND=1 NB=2 
//@ variant: MSRre NAME="MSRre" KIND=6 NB=2 
//@ variant: MSRren NAME="MSRren" KIND=6 NB=2 
//@ variant: CCI NAME="CCI" KIND=1 NB=2 
//@ variant: EVI2 NAME="EVI2" KIND=2 NB=2 RES=2.4f,1.0f,0.0f,1.0f,0
//@ variant: ContRemSWIR NAME="ContRemSWIR" KIND=7 NB=3 
//@ assume: find_domain finds each band name at its own place (any place, or not at all)
#include "vc.h"
#include <math.h>
#include <limits.h>
#include "higher-level/index-compute-hl.h"
#include "cross-level/cite-cl.h"
#ifndef RES
#define RES 0,0,0,0,0
#endif
#ifndef TCK
#define TCK 0
#endif

int nc, nt, nb, ni, idx, W_p, W_t, W_b, ret; short nodata, before;
ard_t *ard; small *mask_; tsa_t ts; index_t ind; sen_t sen; par_sma_t sma; table_t em; brick_t dat;
int band[6]; char *bn[6];

/* contract of find_domain (unit c07_domain): the number of the band with this name; here band name 'a'+j is band[j] */
int stub_find_domain(brick_t *b, const char *name){ return band[name[0]-'a']; }
void stub_cite_me(int i){ }

void pre(void){
  int j;
  nc = DIM(1, 100000000, 3); nt = DIM(1, 100000, 2); nb = DIM(1, 1000, 3); ni = DIM(1, 1000, 2);
  idx = vc_range(0, ni-1);
  for (j = 0; j < 6; j++) band[j] = vc_range(0, nb-1);
  bn[0] = "a"; bn[1] = "b"; bn[2] = "c"; bn[3] = "d"; bn[4] = "e"; bn[5] = "f";
  W_p = vc_range(0, nc-1); W_t = vc_range(0, nt-1); W_b = vc_range(0, nb-1);
  nodata = vc_short();
  ard = STRUCTS(ard_t, nt);
  ROWS(ard, nt, .msk, small, nc);
  ROWS2(ard, nt, .dat, nb, short, nc);
  ts.tss_ = PTRS(short, nt);
  ROWS(ts.tss_, nt, , short, nc);
  if (vc_bool()) mask_ = ARR(small, nc); else mask_ = NULL;
  ind.n = ni;
  ind.type = STRUCTS(int, ni); ind.names = PTRS(char, ni); ind.n_bands = STRUCTS(int, ni); ind.band_names = PTRS(char*, ni);
  ind.type[idx] = KIND == 0 ? _INDEX_TYPE_BAND_ : _INDEX_TYPE_EQUATION_;
  ind.names[idx] = NAME; ind.n_bands[idx] = NB; ind.band_names[idx] = bn;
  before = ard[W_t].dat[W_b][W_p];
}
void run(void){ ret = tsa_spectral_index(ard, &ts, mask_, nc, nt, idx, nodata, &ind, &sen, &sma, &em); }

/* the documented formulas; x: the values of the bands the index is defined on */
static short normdiff(int a, int b){
  float sum = (a+b), v = (a-b)/sum;
  if (sum == 0 || v < -1 || v > 1) return nodata;
  return (short)(v*10000.0f);
}
static short resist(float nir, float red, float blue, float f1, float f2, float f3, float f4, int rbc){
  float scale = 10000.0f, x = rbc ? 1.0f : 0.0f, tmp, v;
  red -= x*(blue-red);
  tmp = nir+f2*red-f3*blue+f4*scale;
  v = f1*(nir-red)/tmp;
  if (tmp == 0) return nodata;
  return (short)(v*scale);
}
static float tcap(int k, int b, int g, int r, int n, int s1, int s2){
  if (k == 0) return  0.2043f*b + 0.4158f*g + 0.5524f*r + 0.5741f*n + 0.3124f*s1 + 0.2303f*s2;
  if (k == 1) return -0.1603f*b + -0.2819f*g + -0.4934f*r + 0.7940f*n + -0.0002f*s1 + -0.1446f*s2;
  return 0.0315f*b + 0.2021f*g + 0.3102f*r + 0.1594f*n + -0.6806f*s1 + -0.6109f*s2;
}
static short tasseled(int k, int b, int g, int r, int n, int s1, int s2){
  float v = 0;
  if (k < 3){ v += 1.0f*tcap(k, b, g, r, n, s1, s2); return (short)v; }
  v += 1.0f*tcap(0, b, g, r, n, s1, s2);
  v += -1.0f*tcap(1, b, g, r, n, s1, s2);
  v += -1.0f*tcap(2, b, g, r, n, s1, s2);
  return (short)v;
}
static short kernel(int a, int b){
  float sigma, diff, k, v, scale = 10000.0;
  if (a <= 0 || b <= 0) return nodata;
  sigma = 0.5 * (a + b); diff = a - b;
  k = exp(-(diff*diff) / (2*sigma*sigma));
  v = (1-k) / (1+k);
  return (short)(v*scale);
}
static short ratio1(int a, int b){
  float v, scale = 1000.0;
  if (b == 0) return nodata;
  v = (a / (float)b) - 1.0;
  if (v*scale > SHRT_MAX || v*scale < SHRT_MIN) return nodata;
  return (short)(v*scale);
}
static short msr(int a, int b){
  float up, lo, v, scale = 10000.0;
  if (b == 0) return nodata;
  up = (a / (float)b) - 1.0;
  lo = sqrt((a / (float)b) + 1.0);
  v = up/lo;
  if (lo == 0 || v*scale > SHRT_MAX || v*scale < SHRT_MIN) return nodata;
  return (short)(v*scale);
}
static short contrem(int c, int a, int b){
  float w_ = 1.610, w1 = 0.864, w2 = 2.186, tmp;
  tmp = (a * (w2 - w_) + b * (w_ - w1)) / (w2 - w1);
  return (short)(c - tmp);
}
static short value(short *x){
  if (KIND == 0) return x[0];
  if (KIND == 1) return normdiff(x[0], x[1]);
  if (KIND == 2) return resist(x[0], x[1], NB > 2 ? x[2] : x[1], RES);
  if (KIND == 3) return tasseled(TCK, x[0], x[1], x[2], x[3], x[4], x[5]);
  if (KIND == 4) return kernel(x[0], x[1]);
  if (KIND == 5) return ratio1(x[0], x[1]);
  if (KIND == 6) return msr(x[0], x[1]);
  return contrem(x[0], x[1], x[2]);
}
void post(void){
  short x[6]; int j;
  bool use = (mask_ == NULL || mask_[W_p]) && ard[W_t].msk[W_p];
  for (j = 0; j < NB; j++) x[j] = ard[W_t].dat[band[j]][W_p];
  ENSURE("unusable observation is nodata", use || ts.tss_[W_t][W_p] == nodata);
  ENSURE("usable observation is the documented formula of its own bands", !use || ts.tss_[W_t][W_p] == value(x));
  ENSURE("input data are unchanged", ard[W_t].dat[W_b][W_p] == before);
  ENSURE("the index is implemented", ret == SUCCESS);
}
VC_MAIN

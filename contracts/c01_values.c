//@ property: C01
//@ src: cross-level/quality-cl.c
//@ fn: set_qai_to_value get_qai_from_value set_off_to_value set_cloud_to_value set_shadow_to_value set_snow_to_value set_water_to_value set_aerosol_to_value set_subzero_to_value set_saturation_to_value set_lowsun_to_value set_illumination_to_value set_slope_to_value set_vaporfill_to_value get_off_from_value get_cloud_from_value get_shadow_from_value get_snow_from_value get_water_from_value get_aerosol_from_value get_subzero_from_value get_saturation_from_value get_lowsun_from_value get_illumination_from_value get_slope_from_value get_vaporfill_from_value
#include "vc.h"
#include "cross-level/quality-cl.h"
#include "c01.h"
short word;
void pre(void){ word = vc_short(); }
static int rd(int f, short w){
  switch (f){
    case 0: return get_off_from_value(w);
    case 1: return get_cloud_from_value(w);
    case 2: return get_shadow_from_value(w);
    case 3: return get_snow_from_value(w);
    case 4: return get_water_from_value(w);
    case 5: return get_aerosol_from_value(w);
    case 6: return get_subzero_from_value(w);
    case 7: return get_saturation_from_value(w);
    case 8: return get_lowsun_from_value(w);
    case 9: return get_illumination_from_value(w);
    case 10: return get_slope_from_value(w);
    default: return get_vaporfill_from_value(w);
  }
}
static void one(int f, int v){
  short w = word; int g;
  switch (f){
    case 0: set_off_to_value(&w, v); break;
    case 1: set_cloud_to_value(&w, v); break;
    case 2: set_shadow_to_value(&w, v); break;
    case 3: set_snow_to_value(&w, v); break;
    case 4: set_water_to_value(&w, v); break;
    case 5: set_aerosol_to_value(&w, v); break;
    case 6: set_subzero_to_value(&w, v); break;
    case 7: set_saturation_to_value(&w, v); break;
    case 8: set_lowsun_to_value(&w, v); break;
    case 9: set_illumination_to_value(&w, v); break;
    case 10: set_slope_to_value(&w, v); break;
    default: set_vaporfill_to_value(&w, v); break;
  }
  ENSURE("reading the flag returns the value written", rd(f, w) == v);
  ENSURE("the value is stored in the flag's own documented bits", field(w, f) == v);
  for (g = 0; g <= 12; g++) ENSURE("other flags of the word are unchanged", g == f || field(w, g) == field(word, g));
}
void run(void){
  int f, v;
  for (f = 0; f < 12; f++){
    ENSURE("reading a flag decodes its documented bits", rd(f, word) == field(word, f));
    for (v = 0; v < NVAL(f); v++) one(f, v);
  }
}
void post(void){}
VC_MAIN

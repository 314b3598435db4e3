#include "vc.h"
#include <math.h>
double x, y, z; float f, g; int a, b, c, e; short s, t; 
void pre(void){ x = vc_double(); y = vc_double(); f = vc_float(); a = vc_range(-30000, 30000); b = vc_range(-30000, 30000); }
void run(void){
  z = x + y; g = f*f; c = (int)((double)a); e = (int)floor(a/7.0); s = (short)(a*0.5);
  t = (short)fmin(a, b);
}
void post(void){
  ENSURE("F nan", x == x); ENSURE("T nan", x == x || isnan(x)); ENSURE("F assoc", (x + y) - y == x);
  ENSURE("T comm", x + y == y + x || isnan(x+y)); ENSURE("F pos", g >= 0); ENSURE("T int", c == a);
  ENSURE("F pos1", g > 0 || f == 0 || isnan(f));
  ENSURE("T floor", e*7 <= a && a < e*7+7); ENSURE("F floor", e == a/7);
  ENSURE("T half", s >= -15000 && s <= 15000); ENSURE("F half", s*2 == a);
  ENSURE("F order", x < y || x >= y); ENSURE("T lt", !(x < y) || !(y < x)); ENSURE("F prec", (float)x == x || isnan(x));
  ENSURE("F big", (double)(float)(a*1000+1) == a*1000+1); ENSURE("T big", (double)(a*1000+1) == a*1000+1);
}
VC_MAIN

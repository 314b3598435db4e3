//@ property: C15
//@ src: cross-level/brick_base-cl.c cross-level/utils-cl.c
//@ fn: set_brick get_brick is_brick_nodata fequal
//@ variant: short T=short V=vshort DT=_DT_SHORT_ LO=-32768 HI=32767
//@ variant: byte T=small V=vsmall DT=_DT_SMALL_ LO=0 HI=255
//@ variant: float T=float V=vfloat DT=_DT_FLOAT_ LO=-8000000 HI=8000000
//@ variant: int T=int V=vint DT=_DT_INT_ LO=-8000000 HI=8000000
//@ variant: ushort T=ushort V=vushort DT=_DT_USHORT_ LO=0 HI=65535
#include "vc.h"
#include "cross-level/brick_base-cl.h"
int nb, nc, b, p, W_b, W_p, n; brick_t br; float got, other, before; bool isnd;

void pre(void){
  nb = DIM(1, 1000, 2); nc = DIM(1, 1600000000, 3);
  b = vc_range(0, nb-1); p = vc_range(0, nc-1); W_b = vc_range(0, nb-1); W_p = vc_range(0, nc-1);
  n = vc_range(LO, HI);
  br.nb = nb; br.datatype = DT; br.nodata = ARR(int, nb);
#ifndef VC_GVC
  if (vc_bool()) br.nodata[b] = n;
#endif
  br.V = PTRS(T, nb); ROWS(br.V, nb, , T, nc);
}
void run(void){
  before = get_brick(&br, W_b, W_p);
  set_brick(&br, b, p, (float)n);
  got = get_brick(&br, b, p);
  other = get_brick(&br, W_b, W_p);
  isnd = is_brick_nodata(&br, b, p);
}
void post(void){
  ENSURE("the written value is read back", got == (float)n);
  ENSURE("other pixels and bands keep their value", (W_b == b && W_p == p) || vc_same_f(other, before));
  ENSURE("the pixel is nodata exactly if it has the nodata value of its band", isnd == (br.nodata[b] == n) || br.nodata[b] > 8000000 || br.nodata[b] < -8000000);
}
VC_MAIN

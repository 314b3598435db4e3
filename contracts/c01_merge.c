//@ property: C01
//@ src: cross-level/quality-cl.c
//@ fn: merge_qai_from_values
#include "vc.h"
#include "cross-level/quality-cl.h"
#include "c01.h"
brick_t qai; int nb, nc, p, W_p; short q1, q2, other, before;
void pre(void){
  nb = DIM(1, 100, 2); nc = DIM(1, 400000000, 3);
  p = vc_range(0, nc-1); W_p = vc_range(0, nc-1);
  q1 = vc_short(); q2 = vc_short();
  qai.vshort = PTRS(short, nb);
  ROWS(qai.vshort, nb, , short, nc);
  other = qai.vshort[0][W_p];
}
void run(void){ merge_qai_from_values(&qai, p, q1, q2); }
void post(void){
  int g, a, b, m;
  for (g = 0; g < 12; g++){
    a = field(q1, g); b = field(q2, g); m = field(qai.vshort[0][p], g);
    if (g == 0) ENSURE("merged pixel is nodata only if both inputs are", m == (a && b));
    else ENSURE("merged flag is the more restrictive of the two", m == (a > b ? a : b));
  }
  ENSURE("other pixels are unchanged", W_p == p || qai.vshort[0][W_p] == other);
}
VC_MAIN

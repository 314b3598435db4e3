//@ property: C05
//@ src: cross-level/tile-cl.c
//@ fn: tile_allowlisted
#include "vc.h"
#include "cross-level/tile-cl.h"
int n, x, y, W_k, Q_k, *lx, *ly, ret; bool listed;
void all_none(void){ HINT(listed || Q_k < 0 || Q_k >= n || lx[Q_k] != x || ly[Q_k] != y); }
void pre(void){
  n = DIM(0, 100000000, 4); x = vc_range(-9999, 9999); y = vc_range(-9999, 9999);
  lx = ARR(int, n); ly = ARR(int, n);
  listed = vc_bool(); W_k = vc_range(0, n > 0 ? n-1 : 0);
#ifndef VC_GVC
  for (int i = 0; i < n; i++){ lx[i] = x + vc_range(-1, 1); ly[i] = y + vc_range(-1, 1); }
#endif
  /* listed: entry W_k is the tile; otherwise no entry is */
  if (listed) ASSUME(n > 0 && lx[W_k] == x && ly[W_k] == y);
  ALLQ(Q_k, n, listed || lx[Q_k] != x || ly[Q_k] != y);
}
void run(void){ ret = tile_allowlisted(lx, ly, n, x, y); }
void post(void){
  ENSURE("allowed exactly if listed, or if there is no list", (ret == SUCCESS) == (listed || n == 0));
  ENSURE("answers yes or no", ret == SUCCESS || ret == FAILURE);
}
bool HB_a; int HC_k;
void hint_a(void){ HINT(!listed || HC_k <= W_k || HB_a); }
void hint_e(void){ HINT(!listed || HC_k <= W_k); }
void hint_n(void){ HINT(listed || !HB_a); }
VC_MAIN

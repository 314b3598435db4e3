#include "vc.h"
#include <stdlib.h>
#include <string.h>
int n, k, **rows, W_r, *h; short **im, *flat; char txt[8]; int ov; unsigned short us; 
void pre(void){ n = DIM(1, 1000, 4); k = vc_range(0, 1000); rows = PTRS(int, 3); ROWS(rows, 3, , int, n); im = PTRS(short, n); ROWS(im, n, , short, 5); W_r = vc_range(0, n-1); us = (unsigned short)vc_range(0, 65535); }
void run(void){
  h = malloc(n*sizeof(int)); memset(h, 0, n*sizeof(int));
  if (k < n) h[k] = 3;
  rows[1][n-1] = 6; rows[0][0] = 4;
  im[W_r][4] = 2; flat = im[0]; flat[1] = 1;
  memcpy(rows[2], h, n*sizeof(int));
  us = us > 0 ? us : 1;
}
void post(void){
  ENSURE("T zero", k >= n || h[k] == 3); ENSURE("F zero", h[0] == 0); ENSURE("T row", rows[1][n-1] == 6 && rows[0][0] == 4);
  ENSURE("F row", rows[1][0] == 6); ENSURE("T cpy", k >= n || rows[2][k] == 3); ENSURE("F cpy", rows[2][0] == 0);
  ENSURE("T im", im[W_r][4] == 2 && im[0][1] == 1); ENSURE("F im", im[0][4] == 2); ENSURE("F im2", im[W_r][1] == 1);
}
VC_MAIN

//@ property: C24
//@ src: cross-level/brick_base-cl.c
//@ fn: crop_brick allocate_brick_bands
//@ variant: short CH=0 T=short V=vshort DT=_DT_SHORT_
//@ variant: short-chunk CH=1 T=short V=vshort DT=_DT_SHORT_
//@ variant: byte CH=0 T=small V=vsmall DT=_DT_SMALL_
//@ variant: byte-chunk CH=1 T=small V=vsmall DT=_DT_SMALL_
//@ variant: float CH=0 T=float V=vfloat DT=_DT_FLOAT_ SAME=vc_same_f
//@ variant: float-chunk CH=1 T=float V=vfloat DT=_DT_FLOAT_ SAME=vc_same_f
//@ variant: int CH=0 T=int V=vint DT=_DT_INT_
//@ variant: int-chunk CH=1 T=int V=vint DT=_DT_INT_
//@ variant: ushort CH=0 T=ushort V=vushort DT=_DT_USHORT_
//@ variant: ushort-chunk CH=1 T=ushort V=vushort DT=_DT_USHORT_
//@ assume: copy_brick gives an image with the same description (decided by C15); allocation succeeds
#include "vc.h"
#include "cross-level/brick_base-cl.h"
#ifndef SAME
#define SAME(a, b) ((a) == (b))
#endif
int nb, nx, ny, sx, sy, pix, cells, W_b, W_i, W_j, chunked; double radius, res;
brick_t *from, *to, *ret; T **rows; T want;

/* contract of copy_brick as used here (unit c15_copy): same description, no bands yet */
brick_t *stub_copy_brick(brick_t *f, int n, int datatype){
  ENSURE("the result has as many bands", n == nb && datatype == _DT_NONE_);
  to->nb = n; to->nx = f->nx; to->ny = f->ny; to->cx = f->cx; to->cy = f->cy;
  to->chunk[_X_] = f->chunk[_X_]; to->chunk[_Y_] = f->chunk[_Y_]; to->geotran[_GT_RES_] = f->geotran[_GT_RES_];
  return to;
}
void stub_free_brick(brick_t *b){ }
/* contract of alloc_2D as used here: n1 blocks of n2 elements */
void stub_alloc_2D(void ***p, size_t n1, size_t n2, size_t size){
  ENSURE("room for exactly the interior of every band", n1 == nb && n2 == cells && size == sizeof(T));
  *p = (void**)rows;
}
void pre(void){
  nb = DIM(1, 1000, 2); nx = DIM(1, 40000, 5); ny = DIM(1, 40000, 4); chunked = CH;
  res = vc_double(); radius = vc_double();
#ifndef VC_GVC
  res = 10; radius = vc_range(0, 2)*10 + vc_range(0, 9) + 0.25;
#endif
  ASSUME(radius > 0 && radius/res >= 0 && radius/res < 20000);
  pix = (int)(radius/res);
  ASSUME(2*pix < nx && 2*pix < ny);
  sx = nx-2*pix; sy = ny-2*pix; cells = sx*sy;
  W_b = vc_range(0, nb-1); W_i = vc_range(0, sy-1); W_j = vc_range(0, sx-1);
  from = STRUCTS(brick_t, 1); to = STRUCTS(brick_t, 1);
  from->nb = nb; from->datatype = DT; from->geotran[_GT_RES_] = res;
  if (chunked){ from->nx = vc_range(nx, 40000); from->ny = vc_range(ny, 40000); from->cx = nx; from->cy = ny; from->chunk[_X_] = from->chunk[_Y_] = vc_range(0, 100); }
  else { from->nx = nx; from->ny = ny; from->cx = from->cy = vc_range(0, 1); from->chunk[_X_] = from->chunk[_Y_] = -1; }
  from->V = PTRS(T, nb); ROWS(from->V, nb, , T, nx*ny);
  rows = PTRS(T, nb); ROWS(rows, nb, , T, cells);
  want = from->V[W_b][(W_i+pix)*nx+W_j+pix];
}
void run(void){ ret = crop_brick(from, radius); }
void post(void){
  ENSURE("an image is returned", ret == to && ret->V == rows && ret->datatype == DT && ret->nb == nb);
  ENSURE("its size is that of the interior", chunked ? ret->cx == sx && ret->cy == sy : ret->nx == sx && ret->ny == sy);
  ENSURE("every pixel is the interior pixel at the same position", SAME(ret->V[W_b][W_i*sx+W_j], want));
}
int HC_i, HC_j, HC_b;
#define DONE(i, j, b) ((i) > W_i || ((i) == W_i && ((j) > W_j || ((j) == W_j && (b) > W_b))))
void hint_row(void){ HINT(!(HC_i > W_i) || SAME(to->V[W_b][W_i*sx+W_j], want)); }
void hint_col(void){ HINT(!(HC_i > W_i || (HC_i == W_i && HC_j > W_j)) || SAME(to->V[W_b][W_i*sx+W_j], want)); }
void hint_band(void){ HINT(!(HC_i > W_i || (HC_i == W_i && (HC_j > W_j || (HC_j == W_j && HC_b > W_b)))) || SAME(to->V[W_b][W_i*sx+W_j], want)); }
void hint_bi(void){ HINT(!(HC_b > W_b || (HC_b == W_b && HC_i > W_i)) || SAME(to->V[W_b][W_i*sx+W_j], want)); }
/* one counter over all pixels */
#define FLAT (W_i*sx+W_j)
void hint_flat(void){ HINT(!(HC_i > FLAT) || SAME(to->V[W_b][FLAT], want)); }
void hint_flatb(void){ HINT(!(HC_i > FLAT || (HC_i == FLAT && HC_b > W_b)) || SAME(to->V[W_b][FLAT], want)); }
void hint_div(void){ HINT(FLAT/sx == W_i && FLAT%sx == W_j); }
VC_MAIN

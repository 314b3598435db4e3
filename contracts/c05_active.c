//@ property: C05
//@ src: cross-level/tile-cl.c
//@ fn: tile_active tile_allowlisted
//@ assume: tile_readlist hands over some list (that it is the one in the text file is decided by unit c05_read)
#include "vc.h"
#include "cross-level/tile-cl.h"
int xa, xb, ya, yb, nx, ny, nl, W_x, W_y, W_n, ret, *tx, *ty, **tiles, *lx, *ly; cube_t cube; char file[8];

/* contract of tile_readlist as used here: any list */
int stub_tile_readlist(char *f, int **X, int **Y, int *k){
#ifdef VC_GVC
  *X = lx; *Y = ly;
#else
  *X = calloc(nl+1, sizeof(int)); *Y = calloc(nl+1, sizeof(int));
  for (int i = 0; i < nl; i++){ (*X)[i] = lx[i]; (*Y)[i] = ly[i]; }
#endif
  *k = nl; return SUCCESS;
}
/* tile x,y is among the entries of the list from number k on */
int rec_in(int x, int y, int k){ return k >= nl ? 0 : lx[k] == x && ly[k] == y ? 1 : rec_in(x, y, k+1); }
#define OK(y, x) (nl == 0 || rec_in(xa+(x), ya+(y), 0) == 1)
/* contract of alloc_2D as used here: two lists with room for every tile of the rectangle */
void stub_alloc_2D(void ***p, size_t n1, size_t n2, size_t size){
  ENSURE("room for every tile", n1 == 2 && n2 == cube.dim_tiles.cells && size == sizeof(int));
  *p = (void**)tiles;
}
/* allowed tiles in the first columns of row y, in the rows before row y */
int rec_cols(int y, int x){ return x <= 0 ? 0 : rec_cols(y, x-1) + (OK(y, x-1) ? 1 : 0); }
int rec_rows(int y){ return y <= 0 ? 0 : rec_rows(y-1) + rec_cols(y-1, nx); }

void pre(void){
  nx = DIM(1, 10000, 3); ny = DIM(1, 10000, 3); xa = vc_range(-9999, 9999); ya = vc_range(-9999, 9999);
  xb = xa+nx-1; yb = ya+ny-1; nl = DIM(0, 1000000, 3); lx = ARR(int, nl); ly = ARR(int, nl);
  W_x = vc_range(0, nx-1); W_y = vc_range(0, ny-1);
#ifndef VC_GVC
  for (int i = 0; i < nl; i++){ lx[i] = vc_range(xa-1, xb+1); ly[i] = vc_range(ya-1, yb+1); }
#endif
  cube.dim_tiles.cols = nx; cube.dim_tiles.rows = ny; cube.dim_tiles.cells = nx*ny; cube.n_allowed_tiles = vc_int();
  cube.tile_extent[_X_][_MIN_] = xa; cube.tile_extent[_X_][_MAX_] = xb; cube.tile_extent[_Y_][_MIN_] = ya; cube.tile_extent[_Y_][_MAX_] = yb;
  tiles = PTRS(int, 2); ROWS(tiles, 2, , int, nx*ny);
  W_n = vc_range(0, nx*ny-1);
}
void run(void){ ret = tile_active(file, &cube); }
#define N cube.n_allowed_tiles
#define POS (rec_rows(W_y)+rec_cols(W_y, W_x))
#define IN(n) (tiles[_X_][n] >= xa && tiles[_X_][n] <= xb && tiles[_Y_][n] >= ya && tiles[_Y_][n] <= yb)
void post(void){
  long pos = (long)rec_rows(W_y)+rec_cols(W_y, W_x);
  ENSURE("as many active tiles as tiles of the rectangle are allowed", N == rec_rows(ny));
  ENSURE("fails exactly without active tile", (ret == SUCCESS) == (N != 0));
  if (OK(W_y, W_x)) ENSURE("every allowed tile is active", pos >= 0 && pos < N && tiles[_X_][pos] == xa+W_x && tiles[_Y_][pos] == ya+W_y);
}
int HC_x, HC_y;
void hint_n(void){ HINT(N == rec_rows(HC_y-ya)+rec_cols(HC_y-ya, HC_x-xa)); }
void hint_nr(void){ HINT(N == rec_rows(HC_y-ya)); }
void hint_m(void){ HINT(N >= 0 && N <= (HC_y-ya)*nx+HC_x-xa); }
void hint_mr(void){ HINT(N >= 0 && N <= (HC_y-ya)*nx); }
#define DONE (!OK(W_y, W_x) || (POS >= 0 && POS < N && tiles[_X_][POS] == xa+W_x && tiles[_Y_][POS] == ya+W_y))
void hint_r(void){ HINT(HC_y <= ya+W_y || DONE); }
void hint_c(void){ HINT(HC_y < ya+W_y || (HC_y == ya+W_y && HC_x <= xa+W_x) || DONE); }
int HC_k; bool HB_a;
void hint_in(void){ HINT(HB_a ? rec_in(HC_x, HC_y, 0) == 1 : rec_in(HC_x, HC_y, 0) == rec_in(HC_x, HC_y, HC_k)); }
void hint_no(void){ HINT(rec_in(HC_x, HC_y, 0) == rec_in(HC_x, HC_y, HC_k)); }
VC_MAIN

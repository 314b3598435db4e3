//@ property: C04
//@ src: higher-level/progress-hl.c cross-level/alloc-cl.c
//@ fn: progress processing_unit forward_processing_unit read_this_chunk compute_this_chunk write_this_chunk init_progess
//@ variant: step STEP
//@ variant: init INIT
//@ opt: hint_guards=false
//@ assume: clock readings are arbitrary; the chunk grid (number of chunk columns and rows of a tile) is arbitrary
//@ assume: the reading, computing and writing callers call progress() once per step
#include "vc.h"
#include "higher-level/progress-hl.h"
int nt, n, cols, rows, cells, W_n, W_k, k, more, rd, cp, wr;
progress_t pro; cube_t cube; par_hl_t phl; int *nprod;

/* clock readings and the display of durations do not matter to the schedule */
void stub_set_secs(date_t *d, int s){}
double stub_proctime(time_t t){ return vc_double(); }
void stub_chunk_layout(cube_t *c, double size[], dim_t *d){ d->cols = cols; d->rows = rows; d->cells = cells; }

void pre(void){
  nt = DIM(1, 100000, 3); cols = DIM(1, 20000, 3); rows = DIM(1, 20000, 2); cells = vc_range(1, 100000000);
  ASSUME((long)cols*rows == cells);
  n = vc_range(1, 2000000000);
  ASSUME((long)nt*cells == n);
  W_n = vc_range(0, n+3); W_k = vc_range(0, nt-1);
  nprod = ARR(int, n);
#ifdef STEP
  pro.pretty_progress = vc_bool();
  pro.tiles = PTRS(int, 2); ROWS(pro.tiles, 2, , int, nt);
  pro.n_tiles = nt; pro.dim_chunks.cols = cols; pro.dim_chunks.rows = rows; pro.dim_chunks.cells = cells; pro.n_processing_units = n;
  pro.last.processing_unit = -3; pro.now.processing_unit = -2; pro.next.processing_unit = -1;
#else
  pro.now.processing_unit = vc_int();
  cube.allowed_tiles = PTRS(int, 2); ROWS(cube.allowed_tiles, 2, , int, nt); cube.n_allowed_tiles = nt;
  phl.ithread = vc_range(1, 1000); phl.cthread = vc_range(1, 1000); phl.othread = vc_range(1, 1000);
#endif
}
void run(void){
#ifdef STEP
  more = 1;
  for (k=0; k<W_n; k++) more = progress(&pro);
  rd = read_this_chunk(&pro); cp = compute_this_chunk(&pro);
  if (pro.last.processing_unit < n) wr = write_this_chunk(&pro, nprod);
#else
  init_progess(&pro, &cube, &phl);
#endif
}
static int in(int u){ return u >= 0 && u < n; }
/* the stage t is at unit u: nothing outside the sequence, else tile and chunk number and position */
static int at(team_t *t, int u){ return t->processing_unit == u; }
static int none(team_t *t, int u){ return in(u) || (t->tile_number == -1 && t->chunk_number == -1 && t->tile[0] == -1 && t->tile[1] == -1 && t->chunk[0] == -1 && t->chunk[1] == -1); }
static int unit(team_t *t, int u){ return !in(u) || (t->tile_number >= 0 && t->tile_number < nt && t->chunk_number >= 0 && t->chunk_number < cells && (long)t->tile_number*cells+t->chunk_number == u); }
static int chunk(team_t *t, int u){ return !in(u) || (t->chunk[_X_] >= 0 && t->chunk[_X_] < cols && t->chunk[_Y_] >= 0 && t->chunk[_Y_] < rows && (long)t->chunk[_Y_]*cols+t->chunk[_X_] == t->chunk_number); }
static int tile(team_t *t, int u){ return !in(u) || t->tile_number < 0 || t->tile_number >= nt || (t->tile[_X_] == pro.tiles[_X_][t->tile_number] && t->tile[_Y_] == pro.tiles[_Y_][t->tile_number]); }
#define RIGHT(t, u) (at(t, u) && none(t, u) && unit(t, u) && chunk(t, u) && tile(t, u))
void post(void){
#ifdef STEP
  ENSURE("the run goes on until the last unit has left the last stage", W_n == 0 || !more == (W_n-2 > n));
  if (W_n > 0 && W_n <= n+2){
    ENSURE("reading stage is at its place in the sequence", RIGHT(&pro.next, W_n-1));
    ENSURE("computing stage trails by one", RIGHT(&pro.now, W_n-2));
    ENSURE("writing stage trails by two", RIGHT(&pro.last, W_n-3));
    ENSURE("reads exactly the units of the sequence", !rd == !(W_n-1 < n));
    ENSURE("computes exactly the units of the sequence", !cp == !(W_n-2 >= 0 && W_n-2 < n));
    ENSURE("writes exactly the units with products", W_n-3 < 0 ? !wr : !wr == !(nprod[W_n-3] > 0));
  }
#else
  ENSURE("the run starts before the first unit", pro.last.processing_unit == -3 && pro.now.processing_unit == -2 && pro.next.processing_unit == -1);
  ENSURE("all chunks of all tiles are planned", pro.n_processing_units == n && pro.n_tiles == nt && pro.dim_chunks.cells == cells && pro.dim_chunks.cols == cols);
  ENSURE("the planned tiles are the active tiles", pro.tiles[_X_][W_k] == cube.allowed_tiles[_X_][W_k] && pro.tiles[_Y_][W_k] == cube.allowed_tiles[_Y_][W_k]);
#endif
}
int HO_k;
#ifdef STEP
void hint_next(void){ HINT(pro.next.processing_unit == HO_k-1 && pro.now.processing_unit == HO_k-2 && pro.last.processing_unit == HO_k-3); }
#define ALL(f) HINT(HO_k == 0 || (f(&pro.next, HO_k-1) && f(&pro.now, HO_k-2) && f(&pro.last, HO_k-3)))
void hint_none(void){ ALL(none); }
void hint_unit(void){ ALL(unit); }
void hint_chunk(void){ ALL(chunk); }
void hint_tile(void){ ALL(tile); }
void hint_more(void){ HINT(HO_k == 0 || !more == (HO_k-2 > n)); }
#endif
VC_MAIN

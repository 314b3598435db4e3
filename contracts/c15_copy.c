//@ property: C15
//@ src: cross-level/brick_base-cl.c cross-level/alloc-cl.c cross-level/date-cl.c
//@ fn: copy_brick allocate_brick init_brick init_brick_bands copy_brick_band copy_date
//@ variant: none DT=_DT_NONE_ CH=1
//@ variant: whole-none DT=_DT_NONE_ CH=0
//@ variant: whole-short DT=_DT_SHORT_ T=short V=vshort CH=0
//@ variant: short DT=_DT_SHORT_ T=short V=vshort CH=1
//@ variant: byte DT=_DT_SMALL_ T=small V=vsmall CH=1
//@ variant: float DT=_DT_FLOAT_ T=float V=vfloat CH=1
//@ variant: int DT=_DT_INT_ T=int V=vint CH=1
//@ variant: ushort DT=_DT_USHORT_ T=ushort V=vushort CH=1
//@ assume: allocation of two-dimensional arrays and of text lists, and copying of text lists and output options, are stand-ins that record what they are given
#include "vc.h"
#include "cross-level/brick_base-cl.h"
#include "cross-level/date-cl.h"
int n0, nb, np, nc, k, W_b; brick_t *f, *to; void **pool;

/* texts: after filling, the field holds the given text (here: the same text object); lists of texts are not followed */
void stub_fill_string(string_t *s, const char *c){ s->string = (char*)c; }
void stub_alloc_string_vector(string_vector_t *v, size_t n, size_t l){ ENSURE("a list of texts has entries (the program ends otherwise)", n > 0 && l > 0); v->number = n; v->string = PTRS(char, 1); }
void stub_fill_string_vector(string_vector_t *v, size_t i, const char *c){ }
void stub_free_string_vector(string_vector_t *v){ v->string = NULL; v->number = 0; }
void stub_default_gdaloptions(int fmt, gdalopt_t *o){ o->extension.string = NULL; }
void stub_copy_gdaloptions(gdalopt_t *to, gdalopt_t *from){ *to = *from; }

/* contract of alloc_2D as used here: n1 blocks of n2 elements */
void stub_alloc_2D(void ***p, size_t n1, size_t n2, size_t size){
#ifdef T
  ENSURE("room for every pixel of every band", n1 == nb && n2 == nc && size == sizeof(T));
#else
  ENSURE("no pixels are allocated", 0);
#endif
  *p = pool;
}
void pre(void){
  n0 = DIM(1, 1000, 2); nb = DIM(1, 1000, 3); np = DIM(0, 100000, 2); nc = DIM(1, 1600000000, 5);
  pool = PTRS(void, 1);
  W_b = vc_range(0, nb-1);
  f = STRUCTS(brick_t, 1);
  f->nb = n0; f->nx = vc_range(1, 40000); f->ny = vc_range(1, 40000); f->cx = vc_range(1, 40000); f->cy = vc_range(1, 40000);
  f->chunk[0] = CH ? vc_range(0, 1000) : -1; f->chunk[1] = CH ? vc_range(0, 1000) : -1; f->tile[0] = vc_range(0, 999); f->tile[1] = vc_range(0, 999);
  /* number of cells of the part in memory */
  f->nc = CH ? vc_range(1, 1600000000) : nc; f->cc = CH ? nc : vc_range(1, 1600000000);
  f->dim_chunk.cols = vc_range(0, 1000); f->dim_chunk.rows = vc_range(0, 1000); f->dim_chunk.cells = vc_range(0, 1000000);
  for (k=0; k<6; k++) f->geotran[k] = vc_double();
  f->cwidth = f->cx*f->geotran[_GT_RES_]; f->cheight = f->cy*f->geotran[_GT_RES_]; f->width = f->nx*f->geotran[_GT_RES_]; f->height = f->ny*f->geotran[_GT_RES_];
  f->sid = vc_int(); f->open = vc_range(0, 3); f->explode = vc_bool(); f->format.extension.string = "ext";
  f->name.string = "name"; f->product.string = "product"; f->dname.string = "dname"; f->fname.string = "fname"; f->provdir.string = "prov"; f->proj.string = "proj"; f->par.string = "par";
  f->provenance.number = np; f->provenance.string = PTRS(char, np);
  f->save = ARR(bool, n0); f->nodata = ARR(int, n0); f->scale = ARR(float, n0); f->wavelength = ARR(float, n0); f->date = DATES(n0);
  f->unit.string = PTRS(char, n0); f->domain.string = PTRS(char, n0); f->bandname.string = PTRS(char, n0); f->sensor.string = PTRS(char, n0);
  f->unit.number = f->domain.number = f->bandname.number = f->sensor.number = n0;
}
void run(void){ to = copy_brick(f, nb, DT); }
#define EQ(x) (to->x == f->x)
#define FROM(b) (nb == n0 ? (b) : 0)
#define BEQ(x) (to->x[W_b] == f->x[FROM(W_b)])
#define same_band(to, b) ((to)->save[b] == f->save[FROM(b)] && (to)->nodata[b] == f->nodata[FROM(b)] && vc_same_f((to)->scale[b], f->scale[FROM(b)]) && vc_same_f((to)->wavelength[b], f->wavelength[FROM(b)]))
#define same_date(to, b) ((to)->date[b].year == f->date[FROM(b)].year && (to)->date[b].month == f->date[FROM(b)].month && (to)->date[b].day == f->date[FROM(b)].day && (to)->date[b].doy == f->date[FROM(b)].doy && (to)->date[b].week == f->date[FROM(b)].week && (to)->date[b].ce == f->date[FROM(b)].ce && (to)->date[b].hh == f->date[FROM(b)].hh && (to)->date[b].mm == f->date[FROM(b)].mm && (to)->date[b].ss == f->date[FROM(b)].ss)
void post(void){
  ENSURE("a new image is returned", to != NULL && to != f);
  ENSURE("bands and data type are as requested", to->nb == nb && to->datatype == DT);
#ifdef T
  ENSURE("pixels are allocated in the requested type", to->V == (T**)pool && to->byte == sizeof(T));
#endif
  ENSURE("same dimensions", EQ(nx) && EQ(ny) && EQ(cx) && EQ(cy) && to->nc == f->nx*f->ny && to->cc == f->cx*f->cy);
  ENSURE("same position in tile and chunk grids", EQ(chunk[0]) && EQ(chunk[1]) && EQ(tile[0]) && EQ(tile[1]) && EQ(dim_chunk.cols) && EQ(dim_chunk.rows) && EQ(dim_chunk.cells));
  for (k=0; k<6; k++) ENSURE("same georeference", vc_same_d(to->geotran[k], f->geotran[k]));
  ENSURE("same extent", vc_same_d(to->width, f->width) && vc_same_d(to->height, f->height) && vc_same_d(to->cwidth, f->cwidth) && vc_same_d(to->cheight, f->cheight));
  ENSURE("same names and projection", EQ(name.string) && EQ(product.string) && EQ(dname.string) && EQ(fname.string) && EQ(provdir.string) && EQ(proj.string) && EQ(par.string));
  ENSURE("same sensor and output options", EQ(sid) && EQ(open) && EQ(explode) && EQ(format.extension.string));
  ENSURE("same number of inputs recorded", EQ(provenance.number));
  ENSURE("same band properties", same_band(to, W_b));
  ENSURE("same band dates", same_date(to, W_b));
}
brick_t *HP_t; int HC_b;
void hint_band(void){ HINT(HP_t == NULL || HP_t == f || W_b >= HC_b || same_band(HP_t, W_b)); }
void hint_date(void){ HINT(HP_t == NULL || HP_t == f || W_b >= HC_b || same_date(HP_t, W_b)); }
VC_MAIN

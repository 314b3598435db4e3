/* Contract harness vocabulary. One harness, three readings:
   VC_GVC    deductive back end (unbounded): arrays are arbitrary objects of symbolic size
   VC_CBMC   bounded counterexample search with CBMC (small sizes)
   (neither) native replay / random search on the real code                              */
#ifndef VC_H
#define VC_H
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>

typedef unsigned char vc_u8;
typedef unsigned short vc_u16;

#if defined(VC_GVC)
int vc_int(void); short vc_short(void); vc_u16 vc_ushort(void); vc_u8 vc_small(void); char vc_char(void);
bool vc_bool(void); float vc_float(void); double vc_double(void); long vc_long(void); unsigned vc_uint(void); unsigned long vc_ulong(void);
void __CPROVER_assume(_Bool); void __CPROVER_assert(_Bool, const char *);
void *vc_arr(unsigned long bytes);
int  vc_rows(int parent, void *first, long n, unsigned long bytes);
int  vc_rows_of(int parent, void *first, long n, unsigned long bytes);
void vc_each(int parent, void *first, long n, long lo, long hi);
void vc_hint(int cond);
/* a precondition for every value 0..n-1 of the global Q: the proof reads it from a function all_*() with a HINT over Q */
#define ALLQ(Q, n, c) do {} while (0)
int vc_same_d(double a, double b); int vc_same_f(float a, float b);
#define ASSUME(c) __CPROVER_assume(c)
#define ENSURE(name, c) __CPROVER_assert((c), name)
#define HINT(c) vc_hint(c)
int vc_range(int lo, int hi);
#define DIM(lo, hi, small) vc_range(lo, hi)
#define ARR(T, n) ((T*)vc_arr((unsigned long)(n)*sizeof(T)))
#define STRUCTS(T, n) ((T*)vc_arr((unsigned long)(n)*sizeof(T)))
#define ROWS(base, n, acc, T, len) vc_rows(0, (void*)&(base)[0] acc, (n), (unsigned long)(len)*sizeof(T))
#define ROWS2(base, n, acc, n2, T, len) do { int s_ = vc_rows(0, (void*)&(base)[0] acc, (n), (unsigned long)(n2)*sizeof(T*)); \
   vc_rows_of(s_, (void*)&(base)[0] acc[0], (n2), (unsigned long)(len)*sizeof(T)); } while (0)
#define EACH(base, n, acc, lo, hi) vc_each(0, (void*)&(base)[0] acc, (n), (lo), (hi))
void vc_sorted(int parent, void *first, long n, long lo, long hi, int strict);
/* values ascending along the index, within [lo,hi] */
#define SORTED(base, n, acc, lo, hi, strict) vc_sorted(0, (void*)&(base)[0] acc, (n), (lo), (hi), (strict))
void vc_index(int parent, void *first, long n);
/* every (base)[k] acc points to its own image with NB bands of NC cells in field vf; its field id holds k */
#define BRICKS(base, n, acc, NB, T, vf, NC, id) do { int s_ = vc_rows(0, (void*)&(base)[0] acc, (n), sizeof(*(base)[0] acc)); \
   int q_ = vc_rows_of(s_, (void*)&(base)[0] acc->vf, 1, (unsigned long)(NB)*sizeof(T*)); \
   vc_rows_of(q_, (void*)&(base)[0] acc->vf[0], (NB), (unsigned long)(NC)*sizeof(T)); vc_index(s_, (void*)&(base)[0] acc->id, 1); } while (0)
/* every (base)[k] acc points to its own image description with ND dates; its field id holds k */
#define BRICKD(base, n, acc, ND, id) do { int s_ = vc_rows(0, (void*)&(base)[0] acc, (n), sizeof(*(base)[0] acc)); \
   vc_rows_of(s_, (void*)&(base)[0] acc->date, 1, (unsigned long)(ND)*sizeof(*(base)[0] acc->date)); vc_index(s_, (void*)&(base)[0] acc->id, 1); } while (0)
#define EACHV(T, base, n, acc) do {} while (0)
/* COPY declares that rows of len elements are remembered; OLD(T, copy, base, i, j) is base[i][j] before run() */
short vc_old_short(short*); int vc_old_int(int*); vc_u8 vc_old_small(vc_u8*); vc_u16 vc_old_ushort(vc_u16*); float vc_old_float(float*); double vc_old_double(double*);
#define COPY(T, copy, base, n, len) do {} while (0)
#define OLD(T, copy, base, i, j) vc_old_##T(&(base)[i][j])
/* array of n dates (arbitrary fields in the proof) */
#define DATES(n) STRUCTS(date_t, n)
#else
/* ---------------- executable readings ---------------- */
#if defined(VC_CBMC)
#define VC_DRAW(T, N) T nondet_##N(void); static T vc_##N(void){ T vc_rec_##N; vc_rec_##N = nondet_##N(); return vc_rec_##N; }
VC_DRAW(int,int) VC_DRAW(short,short) VC_DRAW(vc_u16,ushort) VC_DRAW(vc_u8,small) VC_DRAW(char,char)
VC_DRAW(float,float) VC_DRAW(double,double) VC_DRAW(long,long) VC_DRAW(unsigned,uint) VC_DRAW(unsigned long,ulong)
static bool vc_bool(void){ vc_u8 v = vc_small(); __CPROVER_assume(v <= 1); return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define ENSURE(name, c) __CPROVER_assert((c), name)
static int vc_range(int lo, int hi){ int v = vc_int(); __CPROVER_assume(v >= lo && v <= hi); return v; }
#define DIM(lo, hi, small) vc_range(lo, small)
#else
int vc_int(void); short vc_short(void); vc_u16 vc_ushort(void); vc_u8 vc_small(void); char vc_char(void);
bool vc_bool(void); float vc_float(void); double vc_double(void); long vc_long(void); unsigned vc_uint(void); unsigned long vc_ulong(void);
void vc_assume(int c); void vc_ensure(const char *name, int c, const char *txt);
int vc_range(int lo, int hi); int vc_dim(int lo, int hi, int small);
#define ASSUME(c) vc_assume(!!(c))
#define ENSURE(name, c) vc_ensure(name, !!(c), #c)
#define DIM(lo, hi, small) vc_dim(lo, hi, small)
#endif
#define HINT(c) do {} while (0)
#define ALLQ(Q, n, c) do { for (Q = 0; Q < (n); Q++) ASSUME(c); } while (0)
static inline int vc_same_d(double a, double b){ return memcmp(&a, &b, sizeof a) == 0; }
static inline int vc_same_f(float a, float b){ return memcmp(&a, &b, sizeof a) == 0; }
#define VC_FILL(T, N) static T *vc_fill_##N(long n){ T *p = (T*)malloc(n > 0 ? n*sizeof(T) : 1); for (long i = 0; i < n; i++) p[i] = vc_##N(); return p; }
VC_FILL(int,int) VC_FILL(short,short) VC_FILL(vc_u16,ushort) VC_FILL(vc_u8,small) VC_FILL(char,char) VC_FILL(float,float) VC_FILL(double,double) VC_FILL(bool,bool) VC_FILL(long,long)
#define VC_FILLSEL(T, n) _Generic((T*)0, int*: vc_fill_int, short*: vc_fill_short, unsigned short*: vc_fill_ushort, unsigned char*: vc_fill_small, \
   char*: vc_fill_char, float*: vc_fill_float, double*: vc_fill_double, bool*: vc_fill_bool, long*: vc_fill_long)(n)
#define ARR(T, n) VC_FILLSEL(T, n)
#define STRUCTS(T, n) ((T*)calloc((n) > 0 ? (n) : 1, sizeof(T)))
#define ROWS(base, n, acc, T, len) do { for (long r_ = 0; r_ < (n); r_++) (base)[r_] acc = VC_FILLSEL(T, len); } while (0)
#define ROWS2(base, n, acc, n2, T, len) do { for (long r_ = 0; r_ < (n); r_++){ (base)[r_] acc = (T**)malloc(((n2) > 0 ? (n2) : 1)*sizeof(T*)); \
   for (long q_ = 0; q_ < (n2); q_++) (base)[r_] acc[q_] = VC_FILLSEL(T, len); } } while (0)
#define BRICKS(base, n, acc, NB, T, vf, NC, id) do { for (long r_ = 0; r_ < (n); r_++){ (base)[r_] acc = calloc(1, sizeof(*(base)[0] acc)); (base)[r_] acc->id = r_; \
   (base)[r_] acc->vf = (T**)malloc(((NB) > 0 ? (NB) : 1)*sizeof(T*)); for (long q_ = 0; q_ < (NB); q_++) (base)[r_] acc->vf[q_] = VC_FILLSEL(T, NC); } } while (0)
#define BRICKD(base, n, acc, ND, id) do { for (long r_ = 0; r_ < (n); r_++){ (base)[r_] acc = calloc(1, sizeof(*(base)[0] acc)); (base)[r_] acc->id = r_; \
   (base)[r_] acc->date = calloc((ND) > 0 ? (ND) : 1, sizeof(*(base)[0] acc->date)); for (long q_ = 0; q_ < (ND); q_++){ \
   (base)[r_] acc->date[q_].ce = vc_range(0, 800000); (base)[r_] acc->date[q_].doy = vc_range(1, 365); (base)[r_] acc->date[q_].year = vc_range(1970, 2100); \
   (base)[r_] acc->date[q_].month = vc_range(1, 12); (base)[r_] acc->date[q_].week = vc_range(1, 52); (base)[r_] acc->date[q_].quarter = vc_range(1, 4); } } } while (0)
#define COPY(T, copy, base, n, len) do { (copy) = malloc(((n) > 0 ? (n) : 1)*sizeof(*(copy))); for (long r_ = 0; r_ < (n); r_++){ \
   (copy)[r_] = malloc(((len) > 0 ? (len) : 1)*sizeof(**(copy))); memcpy((copy)[r_], (base)[r_], (len)*sizeof(**(copy))); } } while (0)
#define OLD(T, copy, base, i, j) ((copy)[i][j])
#define DATES(n) ({ date_t *d_ = STRUCTS(date_t, n); for (long q_ = 0; q_ < (n); q_++){ \
   d_[q_].ce = vc_range(0, 800000); d_[q_].doy = vc_range(1, 365); d_[q_].year = vc_range(1970, 2100); \
   d_[q_].month = vc_range(1, 12); d_[q_].day = vc_range(1, 31); d_[q_].week = vc_range(1, 52); d_[q_].quarter = vc_range(1, 4); } d_; })
#define EACH(base, n, acc, lo, hi) do { for (long r_ = 0; r_ < (n); r_++) (base)[r_] acc = vc_range(lo, hi); } while (0)
#define SORTED(base, n, acc, lo, hi, strict) do { int v_ = vc_range(lo, (hi)-20*(int)(n)); \
   for (long r_ = 0; r_ < (n); r_++){ (base)[r_] acc = v_; v_ += vc_range(strict, 20); } } while (0)
#define EACHV(T, base, n, acc) do { for (long r_ = 0; r_ < (n); r_++) (base)[r_] acc = vc_##T(); } while (0)
#endif
#if defined(VC_GVC) || defined(VC_CBMC)
#define VC_MAIN int main(void){ pre(); run(); post(); return 0; VC_HINTS }
#else
int vc_main(int argc, char **argv);
#define VC_MAIN int vc_exit_ok = VC_EXIT_OK; int main(int argc, char **argv){ return vc_main(argc, argv); }
#endif
/* array of n pointers */
#define PTRS(T, n) STRUCTS(T*, n)
#endif

// expectation: ENSURE texts starting with "T" hold, those starting with "F" fail for some input
#include "vc.h"
#include <string.h>
typedef struct { int u, v; short *p; } tm;
typedef struct { tm a, b, c; tm *cur; int arr[4]; } pr;
pr P, Q; int W, k, x, y, *px, *py, **pp; short *sa, *sb; tm S, R; double d; float f; unsigned char uc; short sh;
static void fwd(tm *t){ t->u++; }
static void viaarr(pr *p){ tm *ts[3] = { &p->c, &p->a, &p->b }; for (int i=0; i<3; i++) fwd(ts[i]); }
static void viastruct(short *q){ tm l = { 1, 2, q }; l.p[0] = 7; }
static tm give(int u, short *q){ tm l; l.u = u; l.v = 3; l.p = q; return l; }
static void swap(int *a, int *b){ int t = *a; *a = *b; *b = t; }
static int *pick(int c, int *a, int *b){ return c ? a : b; }
void pre(void){
  P.a.u = 1; P.b.u = 2; P.c.u = 3; W = DIM(0, 1000, 3); k = vc_range(0, 3); x = vc_range(-100, 100); y = vc_range(-100, 100);
  sa = ARR(short, 4); sb = ARR(short, 4); sh = vc_short(); uc = (unsigned char)vc_range(0, 255);
}
int x0, yy0, g1, g2, g3; long big; unsigned int un;
void run(void){
  viaarr(&P);
  viastruct(sa);
  S = give(4, sb); S.p[1] = 9;
  x0 = x; yy0 = y; swap(&x, &y);
  *pick(k > 1, &g1, &g2) = 5;
  Q = P; Q.a.u = 77;
  P.cur = &P.b; P.cur->v = 12;
  pp = &px; px = &g3; **pp = 42;
  P.arr[k] = 100; 
  R = S; R.p[2] = 8;
  big = (long)x0*1000000000; un = (unsigned)x0; 
  sh = (short)(sh + 1);
  uc = (unsigned char)(uc + 1);
}
void post(void){
  ENSURE("T a", P.a.u == 2); ENSURE("F a", P.a.u == 1); ENSURE("T c", P.c.u == 4); ENSURE("F c", P.c.u == 3);
  ENSURE("T sa", sa[0] == 7); ENSURE("F sa", sa[1] == 7);
  ENSURE("T sb", sb[1] == 9 && S.u == 4); ENSURE("F sb", sb[0] == 9);
  ENSURE("T swap", x == yy0 && y == x0); ENSURE("F swap", x == x0);
  ENSURE("T pick", g1+g2 == 5); ENSURE("F pick", g1 == 5);
  ENSURE("T copy", Q.a.u == 77 && P.a.u == 2 && Q.b.u == 3); ENSURE("F copy", P.a.u == 77);
  ENSURE("T cur", P.b.v == 12 && P.a.v == 0); ENSURE("F cur", P.b.v == 0);
  ENSURE("T pp", g3 == 42); ENSURE("F pp", g3 == 0);
  ENSURE("T arr", P.arr[k] == 100 && P.arr[0]+P.arr[1]+P.arr[2]+P.arr[3] == 100); ENSURE("F arr", P.arr[2] == 100); ENSURE("F arr2", P.arr[2] == 0);
  ENSURE("T alias", sb[2] == 8); ENSURE("F alias", sb[2] == 9);
  ENSURE("T big", big/1000000000 == x0); ENSURE("F big", (int)big == x0*1000000000L);
  ENSURE("T un", (int)un == x0); ENSURE("F un", un < 101);
  ENSURE("F sh", sh > -32768); ENSURE("F uc", uc > 0); ENSURE("T uc", uc <= 255);
}
VC_MAIN

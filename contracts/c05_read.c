//@ property: C05
//@ src: cross-level/tile-cl.c cross-level/alloc-cl.c
//@ fn: tile_readlist
//@ assume: every line of the allow-list names a tile as X and Y with four characters each, digits after an optional minus sign
//@ variant: file NONE=0
//@ variant: none NONE=1
#include "vc.h"
#include <unistd.h>
#include "cross-level/tile-cl.h"
int nl, W_i, ret, k, *lx, *ly; small **dg; char file[32];

/* character j of a line: digits are stored as 0-9, a minus sign as 10 */
static int ch(int i, int j){ return dg[i][j] == 10 ? '-' : '0'+dg[i][j]; }
static int val(int i, int j){ return dg[i][j] == 10 ? -(100*dg[i][j+1]+10*dg[i][j+2]+dg[i][j+3]) : 1000*dg[i][j]+100*dg[i][j+1]+10*dg[i][j+2]+dg[i][j+3]; }
#define DIGIT(d) ((d) >= 0 && (d) <= 9)
#define LEGAL(i) ((DIGIT(dg[i][0]) || dg[i][0] == 10) && DIGIT(dg[i][1]) && DIGIT(dg[i][2]) && DIGIT(dg[i][3]) && \
                  (DIGIT(dg[i][4]) || dg[i][4] == 10) && DIGIT(dg[i][5]) && DIGIT(dg[i][6]) && DIGIT(dg[i][7]))
#if defined(VC_GVC) || defined(VC_CBMC)
/* the text file: number of tiles, then one line X...._Y.... per tile */
int at; FILE *handle;
FILE *gstub_fopen(const char *f, const char *m){ at = 0; return handle; }
int gstub_fclose(FILE *f){ return 0; }
char *gstub_fgets(char *b, int n, FILE *f){
  int i = at-1;
  at++;
  if (i < 0){ b[0] = '1'; b[1] = '\n'; b[2] = '\0'; return b; }
  if (i >= nl) return NULL;
  ASSUME(LEGAL(i));
  b[0] = 'X'; b[1] = ch(i,0); b[2] = ch(i,1); b[3] = ch(i,2); b[4] = ch(i,3); b[5] = '_';
  b[6] = 'Y'; b[7] = ch(i,4); b[8] = ch(i,5); b[9] = ch(i,6); b[10] = ch(i,7); b[11] = '\n'; b[12] = '\0';
  return b;
}
char *gstub_strncpy(char *d, const char *s, size_t n){
  bool end = false;
  ENSURE("copies the characters of one number", n <= 4);
  if (n > 0){ d[0] = s[0]; end = s[0] == '\0'; }
  if (n > 1){ if (end) d[1] = '\0'; else { d[1] = s[1]; end = s[1] == '\0'; } }
  if (n > 2){ if (end) d[2] = '\0'; else { d[2] = s[2]; end = s[2] == '\0'; } }
  if (n > 3){ if (end) d[3] = '\0'; else d[3] = s[3]; }
  return d;
}
int gstub_atoi(const char *s){
  int neg, a, b, c, d;
  if (at == 1) return nl;   /* the first line */
  ENSURE("converts one number", s[4] == '\0');
  neg = s[0] == '-'; a = s[0]-'0'; b = s[1]-'0'; c = s[2]-'0'; d = s[3]-'0';
  if (!(DIGIT(b) && DIGIT(c) && DIGIT(d) && (neg || DIGIT(a)))) return 0;
  return neg ? -(100*b+10*c+d) : 1000*a+100*b+10*c+d;
}
#endif
void pre(void){
  nl = DIM(1, 1000000, 3); W_i = vc_range(0, nl-1);
  dg = PTRS(small, nl); ROWS(dg, nl, , small, 8);
#if defined(VC_GVC) || defined(VC_CBMC)
  handle = (FILE*)ARR(char, 1);
  file[0] = 'l'; file[1] = '\0';
#else
  strcpy(file, "/tmp/vc_listXXXXXX");
  FILE *f = fdopen(mkstemp(file), "w");
  fprintf(f, "%d\n", nl);
  for (int i = 0; i < nl; i++){
    for (int j = 0; j < 8; j++) dg[i][j] %= j%4 ? 10 : 11;
    fprintf(f, "X%c%c%c%c_Y%c%c%c%c\n", ch(i,0), ch(i,1), ch(i,2), ch(i,3), ch(i,4), ch(i,5), ch(i,6), ch(i,7));
  }
  fclose(f);
#endif
  k = vc_int();
}
void run(void){
  ret = tile_readlist(NONE ? "NULL" : file, &lx, &ly, &k);
#if !defined(VC_GVC) && !defined(VC_CBMC)
  unlink(file);
#endif
}
void post(void){
  ENSURE("the list is read", ret == SUCCESS);
  if (NONE){ ENSURE("no entries without a file", k == 0); return; }
  ENSURE("as many entries as lines", k == nl);
  ENSURE("column of the tile", lx[W_i] == val(W_i, 0));
  ENSURE("row of the tile", ly[W_i] == val(W_i, 4));
}
#if defined(VC_GVC) || defined(VC_CBMC)
int HC_i, *HP_x;
void hint_at(void){ HINT(at == HC_i+1); }
void hint_x(void){ HINT(W_i >= HC_i || HP_x[W_i] == val(W_i, 0)); }
void hint_y(void){ HINT(W_i >= HC_i || HP_x[W_i] == val(W_i, 4)); }
#else
void hint_at(void){} void hint_x(void){} void hint_y(void){}
#endif
VC_MAIN

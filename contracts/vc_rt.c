/* Native runtime of the contract harnesses: replays a recorded list of input draws on the
   real code, or searches for a failing input with pseudo-random draws.
     prog replay FILE            exit 0 contract holds, 42 contract broken, 43 draws violate the precondition
     prog random SEED SECS OUT   exit 0 nothing found, 42 failing input written to OUT            */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <unistd.h>
#include <time.h>
#include <limits.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

void pre(void); void run(void); void post(void);
extern int vc_exit_ok;

#define MAXD 400000
struct draw { char k; uint64_t v; };
struct shared { long n, iter, used; int stage; char msg[4096]; struct draw d[MAXD]; };
static struct shared *S;
static int replaying; static long rpos, rn; static struct draw *R;
static jmp_buf J;
static uint64_t X; static int style;
static uint64_t pool[16]; static int np;

static uint64_t rnd(void){ X ^= X << 13; X ^= X >> 7; X ^= X << 17; return X * 0x2545F4914F6CDD1DULL >> 16; }
static void rec(char k, uint64_t v){ if (S->n < MAXD){ S->d[S->n].k = k; S->d[S->n].v = v; S->n++; } pool[np++ & 15] = v; }
static int fromlist(char k, uint64_t *v){
  if (!replaying) return 0;
  *v = 0;
  if (rpos < rn) *v = R[rpos].v;
  rpos++;
  (void)k;
  return 1;
}
static int64_t rint_(int bits, int sg){
  int64_t lo = sg ? -(1LL << (bits-1)) : 0, hi = sg ? (1LL << (bits-1))-1 : (bits == 64 ? INT64_MAX : (1LL << bits)-1), v;
  switch (rnd() % (style == 0 ? 3 : 9)){
    case 0: case 1: v = (int64_t)(rnd() % 5) - (sg ? 2 : 0); break;
    case 2: v = np ? (int64_t)pool[rnd() & 15] + (int64_t)(rnd() % 3) - 1 : 0; break;
    case 3: v = lo + (int64_t)(rnd() % 3); break;
    case 4: v = hi - (int64_t)(rnd() % 3); break;
    case 5: v = (int64_t)(rnd() % 20001) - (sg ? 10000 : 0); break;
    case 6: v = (int64_t)(rnd() % 200) - (sg ? 100 : 0); break;
    default: v = lo + (int64_t)(rnd() % ((uint64_t)(hi-lo) + 1 ? (uint64_t)(hi-lo) + 1 : 1)); break;
  }
  if (v < lo || v > hi) v = lo + (int64_t)((uint64_t)v % ((uint64_t)(hi-lo)));
  return v;
}
static double rflt(void){
  switch (rnd() % (style == 0 ? 4 : 9)){
    case 0: return (double)((int)(rnd() % 5) - 2);
    case 1: return (double)((int)(rnd() % 21) - 10);
    case 2: return ((int)(rnd() % 201) - 100) / 100.0;
    case 3: return np ? (double)(int)pool[rnd() & 15] : 0;
    case 4: return ((int)(rnd() % 20001) - 10000);
    case 5: return ((int)(rnd() % 2000001) - 1000000) / 1000.0;
    case 6: return (rnd() % 1000003) / 1000003.0;
    case 7: return ((int)(rnd() % 2000001) - 1000000) * 1e6;
    default: { double z[6] = { 0.0, 1e-30, -1e-30, 1e30, 0.1, 0.9 }; return z[rnd() % 6]; }
  }
}
#define DI(T, N, K, B, SG) T vc_##N(void){ uint64_t v; if (!fromlist(K, &v)) v = (uint64_t)rint_(B, SG); T r = (T)(int64_t)v; rec(K, (uint64_t)(int64_t)r); return r; }
DI(int, int, 'i', 32, 1) DI(short, short, 'h', 16, 1) DI(unsigned short, ushort, 'H', 16, 0) DI(unsigned char, small, 'B', 8, 0)
DI(char, char, 'c', 8, 1) DI(long, long, 'l', 64, 1) DI(unsigned, uint, 'I', 32, 0) DI(unsigned long, ulong, 'L', 63, 0)
bool vc_bool(void){ uint64_t v; if (!fromlist('B', &v)) v = rnd() & 1; rec('B', v); return v != 0; }
float vc_float(void){ uint64_t v; float f; uint32_t u; if (fromlist('f', &v)){ u = (uint32_t)v; memcpy(&f, &u, 4); } else f = (float)rflt(); memcpy(&u, &f, 4); rec('f', u); return f; }
double vc_double(void){ uint64_t v; double f; if (fromlist('d', &v)) memcpy(&f, &v, 8); else f = rflt(); memcpy(&v, &f, 8); rec('d', v); return f; }

void vc_assume(int c){ if (!c) longjmp(J, 1); }
void vc_ensure(const char *name, int c, const char *txt){
  if (c) return;
  snprintf(S->msg, sizeof S->msg, "contract broken: %s  [%s]", name, txt);
  _exit(42);
}
int vc_range(int lo, int hi){
  uint64_t v; int r;
  if (lo > hi) longjmp(J, 1);
  if (fromlist('i', &v)) r = (int)(int64_t)v;
  else {
    int64_t w = (int64_t)hi - lo + 1, o;
    switch (rnd() % 6){
      case 0: o = 0; break;
      case 1: o = w-1; break;
      case 2: o = rnd() % (w < 4 ? w : 4); break;
      case 3: o = np ? (int64_t)(int)pool[rnd() & 15] - lo + (int64_t)(rnd() % 3) - 1 : 0; break;
      default: o = rnd() % w; break;
    }
    if (o < 0 || o >= w) o = rnd() % w;
    r = (int)(lo + o);
  }
  rec('i', (uint64_t)(int64_t)r);
  if (r < lo || r > hi) longjmp(J, 1);
  return r;
}
int vc_dim(int lo, int hi, int small){
  uint64_t v; int r;
  if (fromlist('i', &v)) r = (int)(int64_t)v;
  else {
    int64_t m = rnd() % 4 ? small : (int64_t)small*3+1;
    if (m > hi) m = hi;
    if (m < lo) m = lo;
    r = (int)(lo + (int64_t)(rnd() % (uint64_t)(m-lo+1)));
  }
  rec('i', (uint64_t)(int64_t)r);
  if (r < lo || r > hi) longjmp(J, 1);
  return r;
}
/* a function outside the unit was called: the search can say nothing about this input */
void vc_unmodelled(const char *f){ (void)f; longjmp(J, 1); }
void __real_exit(int c);
void __wrap_exit(int c){
  if (S && S->stage){
    if (vc_exit_ok) longjmp(J, 2);
    snprintf(S->msg, sizeof S->msg, "contract broken: the program terminated (exit %d) although the precondition holds", c);
    _exit(42);
  }
  __real_exit(c);
}

static int one(void){
  S->n = 0; S->stage = 0; np = 0; S->msg[0] = 0;
  int j = setjmp(J);
  if (j == 2) return 0;
  if (j) return 1;
  pre(); S->stage = 1; run(); S->stage = 2; post(); S->stage = 0;
  return 0;
}
int vc_main(int argc, char **argv){
  S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (argc > 2 && !strcmp(argv[1], "replay")){
    FILE *f = fopen(argv[2], "r"); char line[512];
    R = malloc(sizeof *R*MAXD);
    while (f && fgets(line, sizeof line, f)){
      char k; unsigned long long v;
      if (line[0] == '#') continue;
      if (sscanf(line, "%c %llx", &k, &v) == 2 && rn < MAXD){ R[rn].k = k; R[rn].v = v; rn++; }
    }
    if (f) fclose(f);
    replaying = 1;
    pid_t p = fork();
    if (!p){ alarm(60); X = 88172645463325252ULL; int r = one(); _exit(r ? 43 : 0); }
    int st; waitpid(p, &st, 0);
    if (S->msg[0]) printf("%s\n", S->msg);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43){ printf("draws violate the precondition\n"); return 43; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0){ printf("contract holds on this input\n"); return 0; }
    if (!S->msg[0]) printf("contract broken: the real code stopped with a run-time error (%s %d, stage %d)\n",
      WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), S->stage);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 44;
    return S->stage || S->msg[0] ? 42 : 44;
  }
  if (argc < 5) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10); int secs = atoi(argv[3]);
  time_t t0 = time(NULL);
  long total = 0, used = 0;
  for (long b = 0; time(NULL) - t0 < secs; b++){
    fflush(stdout);
    S->iter = S->used = 0;
    pid_t p = fork();
    if (!p){
      X = (seed*1000003ULL + b + 1)*0x9E3779B97F4A7C15ULL | 1;
      for (int i = 0; i < 8; i++) rnd();
      alarm(20);
      for (int i = 0; i < 400; i++){
        style = rnd() % 3;
        S->iter++;
        if (!one()) S->used++;
        if (time(NULL) - t0 >= secs) break;
      }
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    total += S->iter; used += S->used;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) continue;
    if (!S->stage && !S->msg[0]) continue;
    FILE *f = fopen(argv[4], "w");
    if (!f) return 2;
    fprintf(f, "# %s\n", S->msg[0] ? S->msg : "the real code stopped with a run-time error (see replay output)");
    for (long i = 0; i < S->n; i++) fprintf(f, "%c %llx\n", S->d[i].k, (unsigned long long)S->d[i].v);
    fclose(f);
    printf("cases %ld within-precondition %ld\n", total, used);
    return 42;
  }
  printf("cases %ld within-precondition %ld\n", total, used);
  return 0;
}

#include "vc.h"
int n, i, j, W_k, *a, *b, sum, cnt, last, nx, ny, *im; short *s; int m; bool any; int fi, dd, st;
void pre(void){ n = DIM(1, 1000, 4); a = ARR(int, n); b = ARR(int, n); W_k = vc_range(0, n-1); EACH(a, n, , -1000, 1000); nx = DIM(1, 100, 3); ny = DIM(1, 100, 3); m = vc_range(-1000, 1000); }
void run(void){
  for (i=0; i<n; i++) b[i] = a[i]+1;
  cnt = 0; for (i=0; i<n; i++) if (a[i] == m) cnt++;
  any = false; for (i=0; i<n; i++) if (a[i] == m) any = true;
  fi = -1; for (i=n-1; i>=0; i--) if (a[i] == m) fi = i;
  last = 0; i = 0; while (i < n){ if (a[i] < 0) { i += 2; continue; } last = i; i++; }
  dd = 10; st = 0; do { st++; dd -= 3; } while (dd > 0);
  for (i=0, j=n; i<j; i++, j--) ;
}
void post(void){
  ENSURE("T each", n == 0 || b[W_k] == a[W_k]+1); ENSURE("F each", n == 0 || b[W_k] == a[W_k]);
  ENSURE("F each2", n == 0 || b[W_k] > -999);
  ENSURE("T cnt", cnt >= 0 && cnt <= n); ENSURE("F cnt", cnt < n || n == 0); ENSURE("F cnt0", cnt == 0);
  ENSURE("F any", any); ENSURE("F any2", !any); ENSURE("F any3", n < 2 || !any || a[0] == m);
  ENSURE("F fi", fi < 0); ENSURE("F fi2", fi <= 0);
  ENSURE("F last", last == 0 || last == n-1); ENSURE("F last2", i == n || n > 900);
  ENSURE("T do", st == 4 && dd == -2); ENSURE("F do", st == 3);
  ENSURE("F two", i == 0);
}
VC_MAIN

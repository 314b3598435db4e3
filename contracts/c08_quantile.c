//@ property: C08 C09
//@ src: cross-level/stats-cl.c
//@ fn: quantile
//@ assume: the GNU Scientific Library sorts (gsl_sort) and interpolates between sorted values (gsl_stats_quantile_from_sorted_data) as documented
#include "vc.h"
#include "cross-level/stats-cl.h"
int n, W_k; double *x, good, bad, *sorted; size_t sorted_n; float pr, ret; bool once;
/* the library: a quantile of sorted values is the quantile; of anything else it is any other number */
void stub_gsl_sort(double *d, const size_t stride, const size_t k){ if (stride == 1){ sorted = d; sorted_n = k; } }
double stub_gsl_stats_quantile_from_sorted_data(const double d[], const size_t stride, const size_t k, const double f){
  return d == sorted && d == x && stride == 1 && k == sorted_n && k == (size_t)n && f == (double)pr ? good : bad;
}
void pre(void){
  n = DIM(1, 100000000, 4); x = ARR(double, n); pr = vc_float(); good = vc_double(); bad = vc_double();
  ASSUME(pr >= 0.0f && pr <= 1.0f);
}
void run(void){ ret = quantile(x, n, pr); }
void post(void){ ENSURE("quantile of all values, sorted, at the requested probability", vc_same_f(ret, (float)good)); }
VC_MAIN

/* statistics over the valid values of the series of pixel W_p; the unit defines valid(t) and the series ts.tsi_ */
/* over the valid values among the first t: number, smallest, largest, mean and central moment sums (one-pass recurrences of the cited report) */
int rec_num(int t){ return t <= 0 ? 0 : rec_num(t-1) + (valid(t-1) ? 1 : 0); }
int rec_min(int t){ return t <= 0 ? 32767 : valid(t-1) && ts.tsi_[t-1][W_p] < rec_min(t-1) ? ts.tsi_[t-1][W_p] : rec_min(t-1); }
int rec_max(int t){ return t <= 0 ? -32768 : valid(t-1) && ts.tsi_[t-1][W_p] > rec_max(t-1) ? ts.tsi_[t-1][W_p] : rec_max(t-1); }
#define X(t) ((double)ts.tsi_[(t)-1][W_p])
#define N(t) ((double)rec_num(t))
#define D(t) (X(t)-rec_m1((t)-1))
#define DN(t) (D(t)/N(t))
double rec_m1(int t){ return t <= 0 ? 0 : valid(t-1) ? rec_m1(t-1) + DN(t) : rec_m1(t-1); }
double rec_m2(int t){ return t <= 0 ? 0 : valid(t-1) ? rec_m2(t-1) + D(t)*DN(t)*(N(t)-1) : rec_m2(t-1); }
double rec_m3(int t){ return t <= 0 ? 0 : valid(t-1) ? rec_m3(t-1) + D(t)*DN(t)*(N(t)-1)*DN(t)*(N(t)-2) - 3*DN(t)*rec_m2(t-1) : rec_m3(t-1); }
double rec_m4(int t){ return t <= 0 ? 0 : valid(t-1) ? rec_m4(t-1) + D(t)*DN(t)*(N(t)-1)*(DN(t)*DN(t))*(N(t)*N(t)-3*N(t)+3) + 6*(DN(t)*DN(t))*rec_m2(t-1) - 4*DN(t)*rec_m3(t-1) : rec_m4(t-1); }

/* the valid value of rank W_k in the series */
int rec_at(int t){ return t <= 0 ? 0 : valid(t-1) && rec_num(t-1) == W_k ? ts.tsi_[t-1][W_p] : rec_at(t-1); }

#define FITS(x) ((x) > -32768.0 && (x) < 32767.0)
static double clamp(double v){ return v < -30000 ? -30000 : v > 30000 ? 30000 : v; }
/* standard deviation, skewness and kurtosis of the first n dates */
static double sd_of(int n){ return sqrt(rec_m2(n)/(N(n)-1)); }
static double skew_of(int n){ double s = sqrt(rec_m2(n)/(N(n)+1-1)); return rec_m3(n)/(N(n)*pow(s, 3)); }
static double kurt_of(int n){ double v = rec_m2(n)/(N(n)+1-1); return rec_m4(n)/(N(n)*v*v); }
int HC_p, HC_t;
int HI_a; double HD_a;
void hint_n(void){ HINT(HI_a == rec_num(HC_t)); }
void hint_np(void){ HINT(HI_a >= 0 && HI_a <= HC_t); }
#ifdef QUANTILES
double *HP_x;
void hint_x(void){ HINT(HP_x == NULL || HI_a <= W_k || HP_x[W_k] == rec_at(HC_t)); }
void hint_25(void){ HINT(rec_num(ni) == 0 || HI_a == SHRT_MIN || HI_a == (short)v25); }
void hint_75(void){ HINT(rec_num(ni) == 0 || HI_a == SHRT_MIN || HI_a == (short)v75); }
#endif
#ifdef RANGE
void hint_min(void){ HINT(HI_a == rec_min(HC_t)); }
void hint_max(void){ HINT(HI_a == rec_max(HC_t)); }
#endif
#ifdef MOMENTS
void hint_m1(void){ HINT(vc_same_d(HD_a, rec_m1(HC_t))); }
void hint_m2(void){ HINT(vc_same_d(HD_a, rec_m2(HC_t))); }
void hint_m3(void){ HINT(vc_same_d(HD_a, rec_m3(HC_t))); }
void hint_m4(void){ HINT(vc_same_d(HD_a, rec_m4(HC_t))); }
#endif

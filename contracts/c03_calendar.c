//@ property: C03
//@ src: cross-level/date-cl.c
//@ fn: set_date set_date_year set_date_month_day set_date_ce set_date_doy set_date_week set_date_month set_date_quarter copy_date init_date doy2md doy2m doy2d md2doy doy2week week2doy doy2quarter m2quarter quarter2doy date2ce doy2ce ce2date ce2doy ce2year
//@ variant: ymd BY_YMD
//@ variant: ce BY_CE
//@ variant: doy BY_DOY
//@ variant: period BY_PERIOD
//@ variant: convert CONVERT
//@ variant: order ORDER
#include "vc.h"
#include "cross-level/date-cl.h"
int y, m, d, doy, ce, w, q, y2, m2, d2, ry, rm, rd, rdoy, r1, r2, r3, r4, r5, r6, r7;
date_t a, b;

/* one calendar: years of 365 days */
static int len(int m){ return m == 2 ? 28 : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static int first(int m){ int s = 0, k; for (k=1; k<=12; k++) s += k < m ? len(k) : 0; return s; }
static int week(int doy){ return (doy+6)/7 > 52 ? 52 : (doy+6)/7; }
static int isdate(int m, int d){ return m >= 1 && m <= 12 && d >= 1 && d <= len(m); }
static int consistent(date_t *x){
  return isdate(x->month, x->day) && x->doy == first(x->month)+x->day && x->week == week(x->doy) &&
    x->quarter == (x->month+2)/3 && x->ce == x->year*365+x->doy;
}
static void any(date_t *x){
  x->ce = vc_int(); x->day = vc_int(); x->doy = vc_range(-100000, 100000); x->week = vc_int(); x->month = vc_int(); x->quarter = vc_int();
  x->year = vc_range(0, 5000); x->hh = vc_int(); x->mm = vc_int(); x->ss = vc_int(); x->tz = vc_int();
}
void pre(void){
  y = vc_range(0, 5000); m = vc_range(1, 12); d = vc_range(1, 31); doy = vc_range(1, 365); w = vc_range(1, 52); q = vc_range(1, 4);
  ce = vc_range(1, 5000*365);
  ASSUME(d <= len(m));
  y2 = vc_range(0, 5000); m2 = vc_range(1, 12); d2 = vc_range(1, 31);
  ASSUME(d2 <= len(m2));
  any(&a);
}
void run(void){
#ifdef BY_YMD
  set_date(&a, y, m, d); copy_date(&a, &b);
#endif
#ifdef BY_CE
  set_date_ce(&a, ce); r1 = ce2year(ce);
#endif
#ifdef BY_DOY
  set_date_doy(&a, doy); copy_date(&a, &b); set_date_year(&b, y);
#endif
#ifdef BY_PERIOD
  copy_date(&a, &b);
  set_date_week(&a, w); rdoy = a.doy; r1 = consistent(&a); r4 = a.week; r7 = a.year;
  set_date_month(&a, m); r2 = a.doy; r3 = consistent(&a); r5 = a.month;
  set_date_quarter(&a, q); r6 = a.quarter;
#endif
#ifdef CONVERT
  doy2md(doy, &rm, &rd); r1 = md2doy(rm, rd); r2 = doy2m(doy); r3 = doy2d(doy); r4 = md2doy(m, d);
  r5 = doy2quarter(doy); r6 = doy2week(doy); r7 = date2ce(y, m, d);
  ce2doy(ce, &rdoy, &ry);
#endif
#ifdef ORDER
  r1 = date2ce(y, m, d); r2 = date2ce(y2, m2, d2); ce2date(r1, &ry, &rm, &rd);
  set_date(&a, y, m, d); set_date(&b, y2, m2, d2);
#endif
}
void post(void){
#ifdef BY_YMD
  ENSURE("year, month and day are the given ones", a.year == y && a.month == m && a.day == d);
  ENSURE("set from year/month/day: all fields describe that day", consistent(&a));
  ENSURE("a copied date equals its source", b.ce == a.ce && b.day == a.day && b.doy == a.doy && b.week == a.week && b.month == a.month &&
    b.quarter == a.quarter && b.year == a.year && b.hh == a.hh && b.mm == a.mm && b.ss == a.ss && b.tz == a.tz);
#endif
#ifdef BY_CE
  ENSURE("set from continuous day: all fields describe that day", consistent(&a));
  ENSURE("the continuous day is the given one", a.ce == ce);
  ENSURE("year of a continuous day", r1 == a.year);
#endif
#ifdef BY_DOY
  ENSURE("day of year is the given one", a.doy == doy);
  ENSURE("set from day of year: all fields describe that day", consistent(&a));
  ENSURE("changing the year keeps the day", b.year == y && b.doy == doy && b.month == a.month && b.day == a.day && consistent(&b));
#endif
#ifdef BY_PERIOD
  ENSURE("set from week: first day of that week", r1 && r4 == w && rdoy == 7*(w-1)+1 && r7 == b.year);
  ENSURE("set from month: first day of that month", r3 && r5 == m && r2 == first(m)+1);
  ENSURE("set from quarter: first day of that quarter", consistent(&a) && r6 == q && a.doy == first(3*q-2)+1);
#endif
#ifdef CONVERT
  ENSURE("month and day of a day of year", isdate(rm, rd) && first(rm)+rd == doy && r2 == rm && r3 == rd);
  ENSURE("day of year there and back", r1 == doy && r4 == first(m)+d);
  ENSURE("quarter and week of a day of year", r5 == (rm+2)/3 && r6 == week(doy));
  ENSURE("continuous day of a date", r7 == y*365+first(m)+d);
  ENSURE("continuous day there and back", rdoy >= 1 && rdoy <= 365 && ry*365+rdoy == ce);
#endif
#ifdef ORDER
  ENSURE("date to continuous day and back", ry == y && rm == m && rd == d);
  if (y < y2 || (y == y2 && (m < m2 || (m == m2 && d < d2)))) ENSURE("a later day has a larger continuous day", r1 < r2 && a.ce < b.ce);
#endif
}
VC_MAIN

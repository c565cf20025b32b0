/* Independent reference model of the documented conversion: direct evaluation on the whole input, no buffering,
** with its own copy of the filter design (ref/). */
#include "vh.h"
typedef float coeff_t ;
#include "ref_fastest.h"
#ifdef VH_BEST
#include "high_qual_coeffs.h"
#define slow_mid_qual_coeffs slow_high_qual_coeffs
#else
#include "ref_medium.h"
#endif

double model_tol (int conv) { return conv == ZOH ? 0 : conv == LINEAR ? 4e-7 : 2e-6 ; }

static double tap (const float *co, int64_t fi)
{	int64_t i = fi >> 12 ;
	double f = (fi & 4095) * (1.0 / 4096) ;
	return co [i] + f * ((double) (co [i + 1] - co [i])) ;
}

double model_val (const model *m, int c, long n0, double frac, double r, int dstart, int dinc)
{	if (m->conv == ZOH || m->conv == LINEAR)
	{	long a = n0 - 1 ;
		if (a < 0) a = 0 ;
		if (a >= m->N) a = m->N - 1 ;
		double xa = m->x [a * m->ch + c] ;
		if (m->conv == ZOH) return xa ;
		long b = n0 >= m->N ? m->N - 1 : n0 ;
		double xb = m->x [b * m->ch + c] ;
		return xa + frac * (xb - xa) ;
		}
	const float *co = m->conv == FASTEST ? fastest_coeffs.coeffs : slow_mid_qual_coeffs.coeffs ;
	int inc = m->conv == FASTEST ? fastest_coeffs.increment : slow_mid_qual_coeffs.increment ;
	int64_t half = m->conv == FASTEST ? (int) (sizeof fastest_coeffs.coeffs / sizeof (float)) - 2 : (int) (sizeof slow_mid_qual_coeffs.coeffs / sizeof (float)) - 2 ;
	int64_t maxi = half << 12 ;
	double finc = inc * (r < 1.0 ? r : 1.0) ;
	int64_t increment = llrint (finc * 4096) + dinc ;
	int64_t start = llrint (frac * finc * 4096) + dstart ;
	if (start < 0) start = 0 ;
	if (start > increment) start = increment ;
	double s = 0 ;
	long i = n0 ;
	for (int64_t fi = start ; fi <= maxi ; fi += increment, i--)
		if (i >= 0 && i < m->N) s += tap (co, fi) * m->x [i * m->ch + c] ;
	i = n0 + 1 ;
	for (int64_t fi = increment - start ; fi <= maxi ; fi += increment, i++)
		if (i >= 0 && i < m->N) s += tap (co, fi) * m->x [i * m->ch + c] ;
	return s * finc / inc ;
}

/* steepest step of the filter next to an offset from its centre (in input frames) */
double model_slope (int conv, double off)
{	const float *co = conv == FASTEST ? fastest_coeffs.coeffs : slow_mid_qual_coeffs.coeffs ;
	int inc = conv == FASTEST ? fastest_coeffs.increment : slow_mid_qual_coeffs.increment ;
	long n = conv == FASTEST ? (long) (sizeof fastest_coeffs.coeffs / sizeof (float)) : (long) (sizeof slow_mid_qual_coeffs.coeffs / sizeof (float)), i = (long) (fabs (off) * inc) ;
	double m = 0 ;
	for (long j = i - 1 ; j <= i + 1 ; j++)
		if (j >= 0 && j + 1 < n) { double d = fabs ((double) co [j + 1] - co [j]) ; if (d > m) m = d ; }
	return m ;
}

static double tie_eps = 1e-6 ;
void model_check (const model *m, int c, long double p, double r, float y, double peak, const char *what, long k)
{	long n0 = (long) floorl (p) ;
	double frac = (double) (p - n0) ;
	double tol = model_tol (m->conv) * peak + 3e-45 ;
	double v = model_val (m, c, n0, frac, r, 0, 0) ;
	if (fabs (v - y) <= tol) return ;
	if (m->conv == ZOH || m->conv == LINEAR)
	{	/* the position is only known to rounding: accept the neighbouring interval next to a sample instant */
		double eps = tie_eps ;
		if (m->conv == ZOH && frac < eps && fabs (model_val (m, c, n0 - 1, 0, r, 0, 0) - y) <= tol) return ;
		if (m->conv == ZOH && frac > 1 - eps && fabs (model_val (m, c, n0 + 1, 0, r, 0, 0) - y) <= tol) return ;
		if (m->conv == LINEAR)
		{	double a = model_val (m, c, n0, 0, r, 0, 0), b = model_val (m, c, n0 + 1, 0, r, 0, 0) ;
			if (fabs (v - y) <= tol + 1e-8 * (fabs (b - a) + peak)) return ;
			}
		}
	else
	{	for (int ds = -1 ; ds <= 1 ; ds++)
			for (int di = -1 ; di <= 1 ; di++)
				if (fabs (model_val (m, c, n0, frac, r, ds, di) - y) <= tol) return ;
		}
	vh_fail (what, "output frame %ld channel %d is %.9g but the %s interpolation at input position %.12Lg (ratio %.17g) is %.9g (peak %.3g, tolerance %.2g)",
		k, c, y, conv_name [m->conv], p, r, v, peak, tol) ;
}

void expected_total (int conv, long N, double r, double *lo, double *hi)
{	double e = N * r, eps = 1e-6 + 1e-11 * e ;
	(void) conv ;
	*lo = e - 1 - eps ; *hi = e + 1 + eps ;
	if (N == 0) { *lo = 0 ; *hi = 0 ; }
}

long model_sample (rng *g, const model *m, double r, const fvec *y, double peak, long count, long ends, const char *key)
{	long n = y->n / m->ch, done = 0 ; int exact = exact_step (r) ;
	tie_eps = exact ? 0 : 1e-6 ;
	for (long i = 0 ; i < 2 * ends + count && n > 0 ; i++)
	{	long k = i < ends ? i : i < 2 * ends ? n - 1 - (i - ends) : rndi (g, 0, n - 1) ;
		if (k < 0 || k >= n) continue ;
		int c0 = m->ch > 2 ? (int) rndi (g, 0, m->ch - 1) : 0, c1 = m->ch > 2 ? c0 + 1 : m->ch ;
		for (int c = c0 ; c < c1 ; c++) { model_check (m, c, exact ? k * (long double) (1 / r) : k / (long double) r, r, y->v [k * m->ch + c], peak, key, k) ; done ++ ; }
		}
	tie_eps = 1e-6 ;
	return done ;
}

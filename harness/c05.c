/* C05: every channel of a multichannel conversion against the mono conversion of that channel. */
#include "vh.h"
const char *vh_prop = "C05" ;
long vh_ncases (int t) { return t ? 30000 : 8000 ; }

static void extract (const float *x, long N, int ch, int c, float *y) { for (long i = 0 ; i < N ; i++) y [i] = x [i * ch + c] ; }

static void cmp_channel (int conv, int ch, int c, double r, const fvec *multi, const fvec *mono, double peak, int gain_on, double gain, const char *key, int varying)
{	long na = multi->n / ch, nb = mono->n, n = na < nb ? na : nb ;
	double tol = (conv == ZOH ? 0 : 2e-6) * peak + (gain_on ? 1e-6 * peak : 0) ;
	for (long k = 0 ; k < n ; k++)
	{	float a = multi->v [k * ch + c] ; double b = gain_on ? mono->v [k] * gain : mono->v [k] ;
		if (a == b || fabs (a - b) <= tol || (isnan (a) && isnan (b))) continue ;
		if (conv == ZOH)
		{	double p = k / r ;
			if (varying || fabs (p - floor (p + 0.5)) < 1e-6) continue ;
			}
		vh_fail (key, "output frame %ld of %ld: channel %d of %d is %.9g, the mono conversion of that channel gives %.9g (peak %.3g)", k, n, c, ch, a, b, peak) ;
		}
	if (labs (na - nb) > 1) vh_fail (key, "%d channel conversion gave %ld frames, mono %ld", ch, na, nb) ;
}

void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), kind = rndi (g, 0, 5) ;
	/* every channel count from 2 to the limit of the converter in turn */
	int ch ;
	long lim = 128 ;
	if (chance (g, 0.4)) ch = 2 + (int) (idx % 9) ; else ch = 2 + (int) (idx % (lim - 1)) ;
	if (conv >= ZOH && chance (g, 0.1)) ch = (int) rndi (g, 129, 1000) ;
	double r = pick_ratio (g), budget = vh_light ? 4e5 : vh_thorough ? 3e6 : 1.2e6 ;
	long N = pick_N (g, conv, ch, r, budget) ;
	int bad = kind == 4 || kind == 5 ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld kind=%d", conv_name [conv], ch, r, N, kind) ;
	vh_steps (1000000) ;
	float *x = gb_alloc (N * ch), *y = gb_alloc (N) ;
	uint64_t seed = rnd (g) ; double peak = 0 ;
	fvec multi = { 0 }, mono = { 0 } ;
	sched s ; pick_sched (g, &s, N, r) ; sched s0 = s ;
	int badc = -1 ; long badn = 0 ;
	if (kind == 0)
	{	/* all channels are distinct multiples of one signal: every channel is compared */
		float *gain = gb_alloc (ch) ;
		for (int c = 0 ; c < ch ; c++) gain [c] = (float) ((c & 1 ? -1 : 1) * (0.25 + 0.75 * (c + 1) / ch)) ;
		if (chance (g, 0.4)) for (int k = (int) rndi (g, 1, ch) ; k > 0 ; k--) gain [rndi (g, 0, ch - 1)] = 0 ;	/* silent channels */
		for (long i = 0 ; i < N ; i++) { y [i] = noise_at (seed, i) ; for (int c = 0 ; c < ch ; c++) x [i * ch + c] = y [i] * gain [c] ; }
		SRC_STATE *st = vh_new (conv, ch) ; vh_stream (st, ch, x, N, r, &s, &multi, NULL) ; vh_delete (st) ;
		st = vh_new (conv, 1) ; vh_stream (st, 1, y, N, r, &s0, &mono, NULL) ; vh_delete (st) ;
		for (int c = 0 ; c < ch ; c++)
		{	double tolpeak = 1 ;
			long na = multi.n / ch, nb = mono.n, n = na < nb ? na : nb ;
			for (long k = 0 ; k < n ; k++)
			{	double a = multi.v [k * ch + c], b = (double) mono.v [k] * gain [c] ;
				if (fabs (a - b) <= 3e-6 * tolpeak) continue ;
				if (conv == ZOH && !exact_step (r)) { double p = k / r ; if (fabs (p - floor (p + 0.5)) < 1e-6) continue ; }
				vh_fail ("channel", "output frame %ld of %ld: channel %d of %d is %.9g, mono gives %.9g", k, n, c, ch, a, b) ;
				}
			if (labs (na - nb) > 1) vh_fail ("length", "%d channels give %ld frames, mono %ld", ch, na, nb) ;
			}
		vh_stat ("channels_compared", ch) ; gb_free (gain) ;
		}
	else
	{	int vary = kind == 3 ;
		for (long i = 0 ; i < N * ch ; i++) x [i] = noise_at (seed, i) ;
		peak = 1 ;
		if (chance (g, 0.5))
		{	/* channels of different kinds side by side: silent, constant, sparse, tiny, bursts between silence, a copy of the first */
			long special = 0 ;
			for (int c = 0 ; c < ch ; c++)
			{	int what = (int) rndi (g, -3, 6) ; long per = rndi (g, 2, 300) ; if (what < 0) continue ;
				for (long i = 0 ; i < N ; i++)
				{	float *v = x + i * ch + c ;
					switch (what)
					{	case 0 : *v = 0 ; break ; case 1 : *v = -0.0f ; break ; case 2 : *v = 0.75f ; break ;
						case 3 : if (i % per) *v = 0 ; break ; case 4 : *v *= 1e-39f ; break ;
						case 5 : if (i / per & 1) *v = 0 ; break ; default : *v = x [i * ch] ; break ;
						}
					}
				special ++ ;
				}
			vh_stat ("special_channels", special) ;
			}
		double rat [40] ; long bo [40] ; int nc = 0 ;
		if (bad)
		{	badc = (int) rndi (g, 0, ch - 1) ; badn = N > 0 ? rndi (g, 0, N - 1) : 0 ; vh_inf_in = 1 ;
			float v [5] = { NAN, INFINITY, -INFINITY, 3e38f, 1e30f } ;
			long cnt = rndi (g, 1, 40) ;
			for (long i = badn ; i < N && i < badn + cnt ; i++) x [i * ch + badc] = v [rndi (g, 0, 4)] ;
			}
		if (vary)
		{	/* all remaining input offered at every call, output limited: the ratio trajectory is the same for both */
			double cur = r, minr = r, b = budget ;
			for (nc = 0 ; nc < 40 && b > 0 ; nc++)
			{	if (chance (g, 0.5)) cur = pick_ratio (g) ; if (cur < minr) minr = cur ;
				long mo = (long) (b / 3 / conv_cost (conv, ch, minr)) + 1 ;
				rat [nc] = cur ; bo [nc] = rndi (g, 1, 600) ; if (bo [nc] > mo) bo [nc] = mo ; b -= bo [nc] * conv_cost (conv, ch, minr) ;
				}
			}
		int list [12], nl = 0 ;
		if (ch <= 8) for (int c = 0 ; c < ch ; c++) list [nl++] = c ;
		else { list [nl++] = 0 ; list [nl++] = ch - 1 ; for (int i = 0 ; i < 4 ; i++) list [nl++] = (int) rndi (g, 0, ch - 1) ; if (badc > 0) list [nl++] = badc - 1 ; if (badc >= 0 && badc < ch - 1) list [nl++] = badc + 1 ; }
		for (int j = -1 ; j < nl ; j++)
		{	int c = j < 0 ? -1 : list [j], cc = j < 0 ? ch : 1 ;
			const float *in = x ; fvec *o = &multi ;
			if (j >= 0) { if (c == badc) continue ; extract (x, N, ch, c, y) ; in = y ; o = &mono ; mono.n = 0 ; }
			SRC_STATE *st = vh_new (conv, cc) ;
			if (vary)
			{	long pos = 0, short_at = 0 ;
				for (int i = 0 ; i < nc ; i++)
				{	cres q = vh_process (st, cc, in + pos * cc, N - pos, bo [i], rat [i], 0, o) ;
					pos += q.used ; if (q.gen < bo [i]) { short_at = 1 ; break ; }
					}
				(void) short_at ;
				}
			else { s = s0 ; vh_stream (st, cc, in, N, r, &s, o, NULL) ; }
			vh_delete (st) ;
			if (j >= 0)
			{	cmp_channel (conv, ch, c, r, &multi, &mono, peak, 0, 1, bad ? "isolation" : vary ? "varying" : "channel", vary) ;
				vh_stat ("channels_compared", 1) ;
				}
			}
		}
	vh_stat ("frames_out", multi.n / ch) ;
	vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + kind * 100) ;
	if (idx < 20) vh_sample ("%s ch=%d ratio=%.6g N=%ld kind=%d: %ld frames equal the mono conversions", conv_name [conv], ch, r, N, kind, multi.n / ch) ;
	fv_free (&multi) ; fv_free (&mono) ;
}

/* C16: bounded work per call, progress per call, bounded latency, bounded draining.
** Variant P counts the executed branches of the library per call (trace-pc) and stops a call that exceeds its bound. */
#include "vh.h"
const char *vh_prop = "C16" ;
long vh_ncases (int t) { return t ? 60000 : 9000 ; }

static volatile long work, work_limit ; static int work_on ; static long work_seen ; static double work_ratio ;
void __sanitizer_cov_trace_pc (void) ;
__attribute__ ((no_sanitize ("all")))
void __sanitizer_cov_trace_pc (void)
{	work ++ ; work_seen = 1 ;
	if (work_on && work > work_limit)
	{	work_on = 0 ;
		vh_fail ("unbounded-work", "a call executed more than %ld branches, its bound", work_limit) ;
		}
}
static double bound (int conv, int ch, double minr, double in, double out)
{	/* generous: a few branches per tap and channel, plus what is proportional to the input presented */
	return 20000 + (out + 4) * 3 * (2 * conv_reach (conv, minr) + 12) * (ch + 8) + 4 * in * (ch + 8) ;
}
static void work_begin (double lim) { work = 0 ; work_limit = lim > 9e17 ? (long) 9e17 : (long) lim ; work_on = 1 ; }
static void work_end (void) { work_on = 0 ; double q = (double) work / work_limit ; if (q > work_ratio) work_ratio = q ; }
static void work_off (void *u) { (void) u ; work_on = 0 ; }

static double clampr (double r) { return r < 1 / 256.0 ? 1 / 256.0 : r > 256 ? 256 : r ; }
static double thr (int conv) { return conv >= ZOH ? 1e-20 : 1e-10 ; }
static long double adv (int conv, long double p, double *last, double target, long outf, long gen)
{	double l = *last, cur = l ;
	for (long k = 0 ; k < gen ; k++)
	{	if (fabs (l - target) > thr (conv)) cur = l + k * (target - l) / outf ;
		p += 1.0L / cur ;
		}
	*last = cur ; return p ;
}
static long maxhold ;
static cres call (SRC_STATE *st, int conv, int ch, const float *in, long inf, long outf, double r, double last, int eoi, fvec *out)
{	double mr = r < last && last > 0 ? r : last > 0 ? last : r ; if (r < mr) mr = r ;
	work_begin (bound (conv, ch, mr, inf, outf)) ;
	cres c = vh_process (st, ch, in, inf, outf, r, eoi, out) ;
	work_end () ;
	return c ;
}
static void drain (rng *g, SRC_STATE *st, int conv, int ch, double r, double *last, long double *p, long N, long ist)
{	long shorts = 0, ncalls = 0 ;
	for (;;)
	{	long outf = vh_block (g, (int) ist, 50) ; if (outf > 4000 || (double) (N - *p) * r / outf > 3000) outf = 4000 ;
		vh_null_when_empty = chance (g, 0.5) ;
		cres c = call (st, conv, ch, NULL, 0, outf, r, *last, 1, NULL) ; ncalls ++ ;
		*p = adv (conv, *p, last, r, outf, c.gen) ;
		if (c.gen == 0) break ;
		if (c.gen < outf && ++shorts > 3) vh_fail ("slow-drain", "draining gave %ld short results without coming to the end", shorts) ;
		if (*p > N + 600.0L + 2 / r) vh_fail ("endless-drain", "draining a stream of %ld frames went on to position %.2Lf", N, *p) ;
		}
	vh_null_when_empty = 0 ;
	vh_stat ("drain_calls", ncalls) ;
}
/* positions steered to within rounding of the frames' own positions: each ratio is chosen so that the next output frame falls
** one or a few units in the last place before (or on, or after) a frame.  The double arithmetic here only steers. */
static void ulp_hunt (rng *g)
{	int conv = chance (g, 0.8) ? (int) rndi (g, ZOH, LINEAR) : pick_conv (g), ch = chance (g, 0.7) ? (int) rndi (g, 1, 13) : pick_channels (g, conv, 128), viacb = chance (g, 0.3), maxblk = (int) rndi (g, 1, 4) ;
	double r = 1, idx = 0 ; long N = conv >= ZOH ? 1500 : 300, hits = 0, calls = 0, gen = 0 ; float *x = make_signal (g, SIG_NOISE, N, ch) ;
	vh_note ("positions within rounding of frames: %s ch=%d%s blocks of at most %d", conv_name [conv], ch, viacb ? " callback" : "", maxblk) ; vh_steps (200000) ;
	cbsrc c ; int e = -1 ; SRC_STATE *st ; long pos = 0 ;
	cbsrc_init (&c, g, x, N, ch, maxblk == 1 ? BLK_ONE : BLK_TINY) ;
	if (viacb) { st = src_callback_new (vh_cb, conv, ch, &e, &c) ; if (!st) vh_fail ("new-failed", "%d", e) ; } else st = vh_new (conv, ch) ;
	for (int i = 0 ; i < 400 && (viacb ? !c.ended : pos < N) ; i++)
	{	double fr = idx - floor (idx), m = rndi (g, 1, 3), target = m ; int u = (int) rndi (g, -3, 1) ;
		while (u < 0) { target = nextafter (target, 0) ; u ++ ; } if (u > 0) target = nextafter (target, 9) ;
		double s = target - fr ; if (s < 1 / 200.) continue ; r = 1 / s ;
		for (int q = 0 ; q < 8 && fr + 1.0 / r != target ; q++) r = fr + 1.0 / r > target ? nextafter (r, 1e9) : nextafter (r, 0) ;
		if (fr + 1.0 / r == target) hits ++ ;
		if (r < 1 / 256. || r > 256) continue ;
		if (src_set_ratio (st, r)) vh_fail ("set-ratio", "failed") ;
		double lim = bound (conv, ch, conv >= ZOH ? r : 1 / 256., 4, 1) * 40 + 2e6 ; work_begin (lim) ; long got = 0, want = 1 ;
		/* one frame takes the position there; then one call with more room */
		for (int k = 0 ; k < 2 && !got ; k++)
		{	if (viacb) got = vh_read (st, ch, r, want, NULL) ;
			else
			{	for (int w = 0 ; w < 700 && !got && pos < N ; w++) { long inf = rndi (g, 1, maxblk) ; if (inf > N - pos) inf = N - pos ; cres q = vh_process (st, ch, x + pos * ch, inf, want, r, 0, NULL) ; pos += q.used ; got = q.gen ; calls ++ ; }
				}
			}
		work_end () ; gen += got ; idx = fr + 1.0 / r ; if (!got) break ;
		if (chance (g, 0.3) && !viacb && pos < N)
		{	/* all output wanted from a tiny block: it must be consumed */
			long inf = rndi (g, 1, maxblk) ; if (inf > N - pos) inf = N - pos ;
			cres q = vh_process (st, ch, x + pos * ch, inf, 2000, r, 0, NULL) ; pos += q.used ; calls ++ ; gen += q.gen ;
			fr = idx - floor (idx) ; for (long k = 0 ; k < q.gen ; k++) { fr += 1.0 / r ; fr -= floor (fr) ; } idx = fr ;
			}
		}
	vh_delete (st) ; if (viacb) cbsrc_done (&c) ;
	vh_stat ("calls", calls) ; vh_stat ("frames", gen) ; vh_stat ("steered_positions", hits) ;
	vh_sig (conv * 1000003ull + ch * 4099 + maxblk * 17 + viacb + 900000) ;
}
void vh_case (rng *g, long idx)
{	if (idx % 8 == 5) { vh_cleanup (work_off, NULL) ; ulp_hunt (g) ; return ; }
	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), kind = (int) rndi (g, 0, 9) ;
	double r = pick_ratio (g), budget = vh_light ? 6e5 : vh_thorough ? 6e6 : 2.5e6, b = budget ;
	long calls = 0, frames = 0 ; maxhold = 0 ; long holdchecks = 0 ;
	vh_cleanup (work_off, NULL) ; vh_steps (3000000) ;
	if (kind <= 5)
	{	/* calls with wandering ratios; kind 0..1 constant */
		int style = kind <= 1 ? -1 : (int) rndi (g, 0, 5), ist = (int) rndi (g, 0, 6), ost = (int) rndi (g, 0, 6) ; long exi = rndi (g, 1, 4000), exo = rndi (g, 1, 2000) ;
		if (style == 5) r = chance (g, 0.5) ? 256 : 1 ;
		long N = rndi (g, 0, 40000) ; if (N * ch > 400000) N = 400000 / ch ;
		if (kind == 0) { ist = BLK_ONE ; ost = BLK_ALL ; if (N > 3000) N = 3000 ; }
		vh_note ("%s ch=%d first ratio=%.17g N=%ld style=%d blocks %d/%d", conv_name [conv], ch, r, N, style, ist, ost) ;
		float *x = make_signal (g, SIG_NOISE, N, ch) ; SRC_STATE *st = vh_new (conv, ch) ;
		double cur = r, last = 0, minr = r ; long double p = 0 ; long pos = 0 ;
		while (calls < 3000 && b > 0)
		{	switch (style)
			{	case 0 : cur = clampr (cur * exp (2 * rndu (g) - 1)) ; break ;
				case 1 : if (chance (g, 0.3)) cur = pick_ratio (g) ; break ;
				case 2 : if (chance (g, 0.3)) cur = chance (g, 0.5) ? r : clampr (r / (1 + 100 * rndu (g))) ; break ;
				case 3 : cur = clampr (cur * (1 + 1e-9 * (rndu (g) - 0.5))) ; break ;
				case 4 : cur = calls & 1 ? 1 / 256.0 : r ; break ;
				case 5 : cur = clampr (cur * (0.5 + 0.5 * rndu (g))) ; break ;
				}
			if (style > 0 && calls && chance (g, 0.1)) { if (src_set_ratio (st, cur)) vh_fail ("set-ratio", "failed") ; last = cur ; }
			if (cur < minr) minr = cur ;
			if (last == 0) last = cur ;
			double cost = conv_cost (conv, ch, minr) ; long mo = (long) (b / 3 / cost) + 1 ;
			long inf = vh_block (g, ist, exi), outf = vh_block (g, ost, exo) ;
			if (chance (g, 0.03)) inf = 0 ; if (chance (g, 0.03)) outf = 0 ;
			if (outf > 6000) outf = 6000 ; if (outf > mo) outf = mo ; if (inf > N - pos) inf = N - pos ;
			double l0 = last ;
			cres c = call (st, conv, ch, x + pos * ch, inf, outf, cur, last, 0, NULL) ;
			calls ++ ; pos += c.used ; frames += c.gen ; b -= c.gen * cost + inf * ch * 0.3 + 100 ;
			p = adv (conv, p, &last, cur, outf, c.gen) ;
			if (c.gen < outf)
			{	/* the output was not filled, so the converter waits for input: how much does it hold back? */
				double mr = l0 < cur ? l0 : cur ; if (mr > 1) mr = 1 ;
				double lim = conv >= ZOH ? 3 : (conv_reach (conv, 1) - 2) / mr + 4 ;
				double hold = (double) (pos - p) ; holdchecks ++ ;
				if (hold > maxhold) maxhold = (long) hold ;
				if (hold > lim) vh_fail ("latency", "%ld frames supplied, the next output frame is at %.3Lf: %.1f frames are held back, the filter at ratio %.9g reaches %.1f", pos, p, hold, mr, lim - 4) ;
				}
			if (pos == N && c.gen == 0 && outf > 0) break ;
			}
		if (b > budget / 20 && pos == N)
		{	int ost2 = (int) rndi (g, BLK_TINY, BLK_EXACT) ;
			drain (g, st, conv, ch, cur, &last, &p, N, ost2) ;
			}
		vh_delete (st) ;
		vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + kind * 100 + (style + 1) * 1009 + ist * 7919 + ost * 31337) ;
		if (idx < 20) vh_sample ("%s ch=%d first ratio=%.6g style=%d: %ld calls all progressed, %ld latency checks (at most %ld frames held back)", conv_name [conv], ch, r, style, calls, holdchecks, maxhold) ;
		}
	else if (kind == 8 && chance (g, 0.5))
	{	/* a source that pauses: its callback returns zero (or an error, as a negative count) and supplies more when called again.
		** Whatever the converter makes of that, every read returns, without asking again and again, and after a reset all works as usual */
		long N = pick_N (g, conv, ch, r, budget / 4) ; if (N < 20) N = 20 + rndi (g, 0, 200) ; int cst = (int) rndi (g, BLK_SMALL, BLK_EXACT), e = -1 ; cbsrc c ;
		vh_note ("pausing callback %s ch=%d ratio=%.17g N=%ld block style %d", conv_name [conv], ch, r, N, cst) ;
		float *x = make_signal (g, SIG_NOISE, N, ch) ; cbsrc_init (&c, g, x, N, ch, cst) ; if (c.exact < 20) c.exact = 20 ;
		double p = chance (g, 0.2) ? 1 : 0.1 + 0.8 * rndu (g) ; c.pause_p = p ; c.neg_p = chance (g, 0.5) ? 0 : chance (g, 0.3) ? 1 : 0.5 ;
		SRC_STATE *st = src_callback_new (vh_cb, conv, ch, &e, &c) ; if (!st) vh_fail ("new-failed", "%d", e) ;
		double cost = conv_cost (conv, ch, r) ; long tot = 0, reads = rndi (g, 1, 30), mo = (long) (budget / 40 / cost) + 1 ;
		for (long i = 0 ; i < reads ; i++)
		{	long want = rndi (g, 1, 2000), c0 = c.calls, g0 = c.given ; if (want > mo) want = mo ;
			work_begin (bound (conv, ch, r, 4 * (N - c.pos) + 1000, want) + 400.0 * (N - c.pos + 10)) ;
			vh_steps ((N - c.pos) * 2 + want + 1000) ;
			tot += vh_read (st, ch, r, want, NULL) ; work_end () ; calls ++ ;
			if (c.calls - c0 > 2 * (c.given - g0) + 4) vh_fail ("callback-calls", "%ld callback calls in one read for %ld supplied frames", c.calls - c0, c.given - g0) ;
			if (chance (g, 0.05)) src_reset (st) ;
			}
		c.pause_p = 0 ; if (src_reset (st)) vh_fail ("reset", "src_reset failed") ; cbsrc_done (&c) ;
		c.pos = 0 ; c.given = 0 ; vh_steps (0) ;
		long want = (long) (N * r / 2) ; if (want > mo) want = mo ; if (want < 1) want = 1 ;
		if (want < N * r - 2)
		{	long n = vh_read (st, ch, r, want, NULL) ; frames += n ;
			if (n != want) vh_fail ("short-read", "after a pause and a reset a read of %ld frames returned %ld although the input had not ended", want, n) ;
			}
		src_delete (st) ; cbsrc_done (&c) ; frames += tot ;
		vh_stat ("pauses", c.pauses) ;
		vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + 5500 + (c.pauses > 3 ? 3 : c.pauses) * 1009 + cst * 7919 + (c.neg_p > 0) * 31337) ;
		}
	else if (kind <= 8)
	{	/* callback reads: no more than the needed callback calls, whatever the block size, and the end is reached */
		long N = pick_N (g, conv, ch, r, budget / 2), reads = 0, tot = 0 ; int cst = N > 3000 ? (int) rndi (g, BLK_SMALL, BLK_EXACT) : (int) rndi (g, 0, 6) ;
		vh_note ("callback %s ch=%d ratio=%.17g N=%ld block style %d", conv_name [conv], ch, r, N, cst) ;
		float *x = make_signal (g, SIG_NOISE, N, ch) ; cbsrc c ; int e = -1, vary = chance (g, 0.4) ; double cur = r, minr = r ; cbsrc_init (&c, g, x, N, ch, cst) ; if (c.exact < 20) c.exact = 20 ;
		SRC_STATE *st = src_callback_new (vh_cb, conv, ch, &e, &c) ; if (!st) vh_fail ("new-failed", "%d", e) ;
		int ost = (int) rndi (g, 0, 6) ; long exo = rndi (g, 20, 3000), after = 0 ;
		while (b > 0 && reads < 4000)
		{	if (vary && chance (g, 0.4)) cur = pick_ratio (g) ;
			if (cur < minr) minr = cur ;
			double cost = conv_cost (conv, ch, minr) ; long want = vh_block (g, ost, exo), mo = (long) (b / 3 / cost) + 1 ;
			if (want > 6000) want = 6000 ; if (want > mo) want = mo ;
			long c0 = c.calls, e0 = c.ended, given0 = c.given ;
			work_begin (bound (conv, ch, minr, 4 * (N - c.pos) + 1000, want) + 400.0 * (N - c.pos + 10)) ;
			long n = vh_read (st, ch, cur, want, NULL) ;
			work_end () ; reads ++ ; tot += n ; b -= n * cost + 200 ;
			/* with a rising ratio every drain within the read may stop at the old ratio's end */
			long extra = vary ? 4 + n : 4 ;
			if (n > 0 && c.calls - c0 > c.given - given0 + extra) vh_fail ("callback-calls", "%ld callback calls for %ld supplied frames", c.calls - c0, c.given - given0) ;
			if (c.ended - e0 > extra) vh_fail ("callback-calls", "one read called the callback %ld times after it had ended the input", c.ended - e0) ;
			if (!vary && n == want && c.calls > c0 + (conv < ZOH) && c.asked_at > needed_at_most (conv, r, tot - 1))
				vh_fail ("asked-too-much", "a read up to output frame %ld at ratio %.17g called the callback when %ld frames had been supplied, which is all it needs", tot - 1, r, c.asked_at) ;
			if (e0 && n == 0) { if (after++) break ; }
			if (n == 0 && !c.ended) vh_fail ("empty-read", "a read of %ld frames returned nothing although the input had not ended", want) ;
			if (n < want && !c.ended) vh_fail ("short-read", "a read of %ld frames returned %ld although the input had not ended", want, n) ;
			}
		vh_delete (st) ; cbsrc_done (&c) ; frames = tot ; calls = reads ;
		vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + kind * 100 + vary * 1009 + cst * 7919 + ost * 31337) ;
		}
	else
	{	/* src_simple and single calls with lopsided counts: much input and little output and the reverse */
		long N = pick_N (g, conv, ch, r, budget * 20), m ; if (N * ch > 2000000) N = 2000000 / ch ; m = chance (g, 0.3) ? 0 : rndi (g, 1, 200) ; double cost = conv_cost (conv, ch, r) ;
		if (m * cost > budget) m = 1 ;
		vh_note ("lopsided %s ch=%d ratio=%.17g N=%ld out=%ld", conv_name [conv], ch, r, N, m) ;
		float *x = make_signal (g, SIG_NOISE, N, ch) ; SRC_STATE *st = vh_new (conv, ch) ;
		double last = r ; int eoi = chance (g, 0.3) ;
		cres c = call (st, conv, ch, x, N, m, r, r, eoi, NULL) ; (void) last ;
		frames += c.gen ; long pos = c.used ;
		/* what is left is still taken, in a bounded number of calls */
		for (int i = 0 ; i < 50 && pos < N ; i++) { c = call (st, conv, ch, x + pos * ch, N - pos, m, r, r, eoi, NULL) ; pos += c.used ; frames += c.gen ; if (m == 0) break ; }
		calls = 50 ; vh_delete (st) ;
		work_begin (bound (conv, ch, r, N, m)) ; vh_simple (conv, ch, x, N, m, r, 0, NULL) ; work_end () ;
		vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + kind * 100 + (m > 0) * 7 + eoi) ;
		}
	vh_stat ("calls", calls) ; vh_stat ("frames", frames) ; vh_stat ("latency_checks", holdchecks) ;
}
void vh_fini (void) { if (work_seen) vh_stat ("work_counted_calls_max_share_of_bound_sum", work_ratio) ; }

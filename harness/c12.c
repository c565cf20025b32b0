/* C12: constant ratio output against the reference model everywhere, and tones against their exact continuous values. */
#include "vh.h"
const char *vh_prop = "C12" ;
long vh_ncases (int t) { return t ? 30000 : 7000 ; }

static void tone (rng *g, long idx)
{	int conv = chance (g, 0.5) ? FASTEST : MEDIUM, ch = chance (g, 0.6) ? 1 : (int) rndi (g, 2, 8) ;
	double r = chance (g, 0.2) ? pick_ratio (g) : pick_ratio_range (g, 0.05, 40), mn = r < 1 ? r : 1, half = conv_reach (conv, r) + 5 ;
	long M = vh_light ? 300 : 1500 ;	/* output frames judged */
	long N = (long) (2 * half + 20 + M / r) + 4 ; if (r < 0.05) { M = 200 ; N = (long) (2 * half + 20 + M / r) ; } if (N * ch > 4000000) ch = 1 ;
	int stop = r < 0.95 && chance (g, 0.35) ;
	double lim = conv == FASTEST ? 0.6 : 0.78, f = stop ? 0.5 * mn * (1.05 + 2 * rndu (g)) : 0.5 * mn * lim * rndu (g) ;
	if (f > 0.499) f = 0.499 ; if (stop && f < 0.5 * mn * 1.05) stop = 0, f = 0.5 * mn * lim * rndu (g) ;
	double amp = 0.9, ph = 6.28 * rndu (g) ; int c0 = (int) rndi (g, 0, ch - 1) ;
	vh_note ("%s ch=%d ratio=%.17g %s tone %.9g", conv_name [conv], ch, r, stop ? "stop band" : "pass band", f) ;
	float *x = gb_alloc (N * ch) ; for (long i = 0 ; i < N * ch ; i++) x [i] = 0 ;
	for (long i = 0 ; i < N ; i++) x [i * ch + c0] = (float) (amp * sin (2 * M_PI * f * i + ph)) ;
	fvec y = { 0 } ; vh_steps (300000) ; sched s ; pick_sched (g, &s, N, r) ;
	SRC_STATE *st = vh_new (conv, ch) ; vh_stream (st, ch, x, N, r, &s, &y, NULL) ; vh_delete (st) ;
	long k0 = (long) (half * r) + 1, k1 = (long) ((N - half) * r) - 1, n = y.n / ch ; if (k1 > n) k1 = n ;
	double e = 0, sg = 0, other = 0 ;
	for (long k = k0 ; k < k1 ; k++)
	{	double want = stop ? 0 : amp * sin (2 * M_PI * f * (k / r) + ph), v = y.v [k * ch + c0] ;
		e += (v - want) * (v - want) ; sg += amp * amp / 2 ;
		for (int c = 0 ; c < ch ; c++) if (c != c0) other += fabs (y.v [k * ch + c]) ;
		}
	if (k1 - k0 < 50) { fv_free (&y) ; return ; }
	double db = e > 0 ? 10 * log10 (sg / e) : 200 ;
	double need = r < 0.02 ? 68 : conv == FASTEST ? (r < 0.1 ? 82 : 89) : r < 0.1 ? 86 : 102 ;
	if (stop) need = conv == FASTEST ? 93 : 105 ;
	if (db < need) vh_fail ("tone", "%s at %.6g of the input rate: %.1f dB, at least %.0f dB required", stop ? "suppression of a tone above the new Nyquist frequency" : "signal to error ratio of a pass band tone", f, db, need) ;
	if (other != 0) vh_fail ("tone-leak", "a tone in channel %d leaks into silent channels", c0) ;
	vh_stat (stop ? "stopband_tones" : "passband_tones", 1) ; vh_stat ("frames_checked", (double) (k1 - k0)) ;
	vh_sig (conv + 8 * ratio_classi (r) + 1000 * stop + 4000 * (uint64_t) (f / mn * 64)) ;
	if (idx < 40) vh_sample ("%s ratio=%.6g %s tone %.4g: %.1f dB over %ld frames", conv_name [conv], r, stop ? "stop band" : "pass band", f, db, k1 - k0) ;
	fv_free (&y) ;
}
/* a single impulse reads the filter itself, so every step of it can be held to the design within its own rounding */
static void impulse (rng *g, long idx)
{	int conv = chance (g, 0.5) ? FASTEST : MEDIUM, ch = chance (g, 0.6) ? 1 : pick_channels (g, conv, 128), c0 = (int) rndi (g, 0, ch - 1) ;
	if (chance (g, 0.3)) ch = (int) rndi (g, 1, 6), c0 = (int) rndi (g, 0, ch - 1) ;
	static const double rs [] = { 256, 255.5, 200.3, 128, 100, 97.7, 64, 50.1, 20.9, 10, 3, 2, 1.0884353741496597, 1 } ;
	double r = chance (g, 0.5) && ch <= 8 ? rs [rndi (g, 0, 4)] : chance (g, 0.5) && ch <= 32 ? rs [rndi (g, 0, 13)] : pick_ratio_range (g, 1, ch > 8 ? 5 : 256) ;
	long half = conv_reach (conv, r) + 5, N = 2 * half + 10, i0 = rndi (g, 0, 3) ? half + rndi (g, 0, 9) : rndi (g, 0, N - 1) ;
	double amp = chance (g, 0.3) ? 1 : chance (g, 0.5) ? -0.75 : 0.3 + rndu (g) ;
	vh_note ("%s ch=%d ratio=%.17g impulse at frame %ld of %ld in channel %d", conv_name [conv], ch, r, i0, N, c0) ;
	float *x = gb_alloc (N * ch) ; for (long i = 0 ; i < N * ch ; i++) x [i] = 0 ;
	x [i0 * ch + c0] = (float) amp ; amp = (float) amp ;
	model m = { x, N, ch, conv } ; fvec y = { 0 } ; vh_steps (300000) ; sched s ; pick_sched (g, &s, N, r) ;
	SRC_STATE *st = vh_new (conv, ch) ; vh_stream (st, ch, x, N, r, &s, &y, NULL) ; vh_delete (st) ;
	long n = y.n / ch ; double worst = 0 ;
	for (long k = 0 ; k < n ; k++)
	{	long double p = k / (long double) r ; long n0 = (long) floorl (p) ; double off = (double) (p - i0) ;
		for (int c = 0 ; c < ch ; c++)
		{	float v = y.v [k * ch + c] ;
			if (c != c0) { if (v != 0) vh_fail ("impulse-leak", "frame %ld channel %d is %.9g, the impulse is in channel %d", k, c, v, c0) ; continue ; }
			if (fabs (off) > half) { if (v != 0) vh_fail ("impulse-reach", "frame %ld is %.9g, %g frames away from the impulse", k, v, off) ; continue ; }
			double w = model_val (&m, c, n0, (double) (p - n0), r, 0, 0), tol = fabs (amp) * model_slope (conv, off) / 1024 + 2e-7 * fabs (w) + 1e-10 * fabs (amp), e = fabs (w - v) ;
			if (e > tol) vh_fail ("impulse", "the filter of the %s converter is %.9g at %.9g frames from its centre, designed %.9g (tolerance %.2g)", conv_name [conv], v / amp, off, w / amp, tol / amp) ;
			if (e / tol > worst) worst = e / tol ;
			}
		}
	vh_stat ("impulse_frames_checked", (double) n) ; vh_stat ("impulses", 1) ;
	vh_sig (777 + conv + 8 * ratio_classi (r) + 1000 * (uint64_t) ch + 1000000 * (uint64_t) i0) ;
	if (idx < 60) vh_sample ("%s ch=%d ratio=%.6g impulse response equals the design in %ld frames, %.3f of the tolerance", conv_name [conv], ch, r, n, worst) ;
	fv_free (&y) ;
}
void vh_case (rng *g, long idx)
{	if (chance (g, 0.15)) { tone (g, idx) ; return ; }
	if (chance (g, 0.1)) { impulse (g, idx) ; return ; }
	int conv = pick_conv (g), ch = chance (g, 0.4) ? 1 : pick_channels (g, conv, conv >= ZOH ? 300 : 128) ;
	double r = pick_ratio (g), budget = vh_light ? 5e5 : vh_thorough ? 5e6 : 2e6 ;
	long N = pick_N (g, conv, ch, r, budget) ; if (N < 1) N = 1 ;
	int sig = rndi (g, 0, SIG_KINDS - 1) ;
	float *x = make_signal (g, sig, N, ch) ; double peak = peak_of (x, N * ch) ; if (peak == 0) peak = 1e-30 ;
	model m = { x, N, ch, conv } ; fvec y = { 0 } ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld signal=%d", conv_name [conv], ch, r, N, sig) ;
	vh_steps (500000) ;
	int how = rndi (g, 0, 3) ;
	if (how == 0) vh_simple (conv, ch, x, N, (long) (N * r) + 20, r, 0, &y) ;
	else
	{	sched s ; pick_sched (g, &s, N, r) ; SRC_STATE *st = vh_new (conv, ch) ;
		if (how == 1) { if (src_set_ratio (st, r)) vh_fail ("set-ratio", "failed") ; }
		vh_stream (st, ch, x, N, r, &s, &y, NULL) ; vh_delete (st) ;
		}
	long n = y.n / ch, checked = 0 ; double per = 3 * conv_reach (conv, r) * n, cb = vh_light ? 3e5 : vh_thorough ? 4e6 : 1.2e6, pp = per > cb ? cb / per : 1 ;
	for (long k = 0 ; k < n ; k++)
	{	int ends = k < 8 || k >= n - 8 ;
		if (pp < 1 && !chance (g, ends ? pp + 0.5 : pp)) continue ;
		int c = ch > 1 ? (int) rndi (g, 0, ch - 1) : 0 ;
		model_check (&m, c, k / (long double) r, r, y.v [k * ch + c], peak, "interpolation", k) ; checked ++ ;
		}
	vh_stat ("frames_checked", checked) ; vh_stat ("frames_out", n) ;
	if (checked) vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + sig * 100000 + how * 7) ;
	if (idx < 20) vh_sample ("%s ch=%d ratio=%.9g N=%ld signal=%d: %ld of %ld frames equal the reference interpolation", conv_name [conv], ch, r, N, sig, checked, n) ;
	fv_free (&y) ;
}

/* C18: linearity, locality, recovery, boundedness and silence, at equal call histories. */
#include "vh.h"
const char *vh_prop = "C18" ;
long vh_ncases (int t) { return t ? 60000 : 16000 ; }
#define MAXC 400
typedef struct { long inf, outf ; double r ; int set, reset ; } hcall ;
static hcall H [MAXC] ; static int nh, cbmode ;
#define MAXF 400000
static long double ps [MAXF] ; static double rs [MAXF] ; static long used [MAXC], gens [MAXC] ;
static double thr (int conv) { return conv >= ZOH ? 1e-20 : 1e-10 ; }
static fvec A, B, C ;
static void fin (void *u) { (void) u ; fv_free (&A) ; fv_free (&B) ; fv_free (&C) ; }
typedef struct { const float *x ; long N, pos ; int ch ; uint64_t s ; int style ; } src ;
static long cb (void *u, float **d)
{	src *s = u ; rng g = { mix64 (s->s ++) } ; long n = vh_block (&g, s->style, 333) ; vh_step () ; if (n > s->N - s->pos) n = s->N - s->pos ;
	*d = (float *) s->x + s->pos * s->ch ; s->pos += n ; return n ;
}
static uint64_t cbseed ; static int cbstyle ;
/* runs the history on the data; the control flow must not depend on the values, except for the record of the first run */
static void history (int conv, int ch, const float *x, long N, fvec *out, int first)
{	long pos = 0, nf = 0 ; double last = 0 ; long double p = 0 ; int e ; src s = { x, N, 0, ch, cbseed, cbstyle } ;
	SRC_STATE *st = cbmode ? src_callback_new (cb, conv, ch, &e, &s) : vh_new (conv, ch) ;
	vh_inf_in = 1 ;
	for (int i = 0 ; i < nh ; i++)
	{	hcall *h = &H [i] ; long u = 0, g ;
		if (h->set) { if (src_set_ratio (st, h->r)) vh_fail ("set-ratio", "failed") ; last = h->r ; }
		if (cbmode) { g = vh_read (st, ch, h->r, h->outf, out) ; u = s.pos ; }
		else
		{	long inf = h->inf < N - pos ? h->inf : N - pos ; cres c = vh_process (st, ch, x + pos * ch, inf, h->outf, h->r, pos + inf == N, out) ;
			pos += c.used ; u = c.used ; g = c.gen ;
			}
		if (first) { used [i] = u ; gens [i] = g ; }
		else if (used [i] != u || gens [i] != g) vh_fail ("value-dependent-control", "call %d consumed %ld and generated %ld frames, with other sample values %ld and %ld", i, u, g, used [i], gens [i]) ;
		if (first)
		{	double l = last != 0 ? last : h->r, cur = l ;
			for (long k = 0 ; k < g && nf < MAXF ; k++) { if (fabs (l - h->r) > thr (conv)) cur = l + k * (h->r - l) / h->outf ; ps [nf] = p ; rs [nf++] = cur ; p += 1.0L / cur ; }
			last = cur ;
			}
		}
	src_delete (st) ;
}
void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), kind = (int) rndi (g, 0, 6) ; double r = pick_ratio (g), budget = vh_light ? 3e5 : vh_thorough ? 3e6 : 1e6, minr = r ;
	long N = rndi (g, 1, 30000) ; if (N * ch > 500000) N = 500000 / ch + 1 ;
	int vary = chance (g, 0.5), style = (int) rndi (g, 0, 3) ; vh_cleanup (fin, NULL) ; vh_steps (1000000) ;
	cbmode = chance (g, 0.25) ; if (cbmode) vary = 0 ; cbseed = rnd (g) ; cbstyle = (int) rndi (g, BLK_SMALL, BLK_EXACT) ;
	nh = 0 ; double b = budget, cur = r ; long fed = 0, tot = 0 ;
	while (nh < MAXC && b > 0 && tot < MAXF && fed < 3 * N + 3000)
	{	hcall *h = &H [nh] ; memset (h, 0, sizeof *h) ;
		if (vary && chance (g, 0.4)) { cur = chance (g, 0.3) ? pick_ratio (g) : pick_ratio_range (g, r / 3, r * 3) ; if (cur > 256) cur = 256 ; if (cur < 1 / 256.0) cur = 1 / 256.0 ; h->set = chance (g, 0.3) ; }
		if (cur < minr) minr = cur ;
		double cost = conv_cost (conv, ch, minr) ; long mo = (long) (b / 3 / cost) + 1 ;
		h->r = cur ; h->inf = style == 0 ? 1L << 40 : style == 1 ? rndi (g, 1, 100) : style == 2 ? rndi (g, 0, 3000) : rndi (g, 1, 12000) ;
		h->outf = style == 1 && chance (g, 0.3) ? rndi (g, 1, 20) : rndi (g, 1, 4000) ; if (h->outf > mo) h->outf = mo ;
		b -= h->outf * cost + 50 ; fed += (long) (h->outf / cur) ; tot += h->outf ; nh ++ ;
		}
	static const char *kn [] = { "superposition", "superposition", "scaling", "locality", "locality", "bounds", "silence" } ;
	vh_note ("%s: %s ch=%d ratio=%.17g%s N=%ld %d calls%s", kn [kind], conv_name [conv], ch, r, vary ? " varying" : "", N, nh, cbmode ? " callback" : "") ;
	float *x = make_signal (g, chance (g, 0.6) ? SIG_NOISE : SIG_MIXED, N, ch) ; for (long i = 0 ; i < N * ch ; i++) if (fabsf (x [i]) > 10) x [i] *= 1e-30f ;
	float *y = gb_alloc (N * ch), *z = gb_alloc (N * ch) ; long n, checked = 0, affected = 0 ; double L = conv < ZOH ? 3.5 : 1.0 ;
	if (kind <= 1)
	{	double a = rndi (g, -8, 8) / 8.0, bb = rndi (g, -8, 8) / 8.0 ;
		for (long i = 0 ; i < N * ch ; i++) { x [i] = floorf (x [i] * 4096) / 4096 ; y [i] = floorf (noise_at (idx, i) * 4096) / 4096 ; z [i] = (float) (a * x [i] + bb * y [i]) ; }
		history (conv, ch, x, N, &A, 1) ; history (conv, ch, y, N, &B, 0) ; history (conv, ch, z, N, &C, 0) ;
		n = A.n ; double tol = 1e-6 ;
		for (long i = 0 ; i < n ; i++) { double w = a * A.v [i] + bb * B.v [i] ; if (!(fabs (w - C.v [i]) <= tol)) vh_fail ("superposition", "frame %ld channel %ld: %g*%.9g + %g*%.9g = %.9g, the sum of the inputs gives %.9g", i / ch, i % ch, a, A.v [i], bb, B.v [i], w, C.v [i]) ; checked ++ ; }
		affected = 1 ;
		}
	else if (kind == 2)
	{	double a = chance (g, 0.3) ? -1 : chance (g, 0.5) ? ldexp (1, (int) rndi (g, -40, 100)) : exp (40 * rndu (g) - 20) ;
		for (long i = 0 ; i < N * ch ; i++) y [i] = (float) (a * x [i]) ;
		history (conv, ch, x, N, &A, 1) ; history (conv, ch, y, N, &B, 0) ; n = A.n ;
		double pk = fabs (a) * (peak_of (x, N * ch) + 1e-30) ;
		for (long i = 0 ; i < n ; i++) { if (!(fabs (a * A.v [i] - B.v [i]) <= 1.5e-6 * pk)) vh_fail ("scaling", "frame %ld channel %ld: %.9g, with the input times %.9g: %.9g", i / ch, i % ch, A.v [i], a, B.v [i]) ; checked ++ ; }
		affected = 1 ;
		}
	else if (kind <= 4)
	{	/* a disturbance in frames a..bnd of some channels; everything out of the filter's reach must be the same bit by bit */
		long a = rndi (g, 0, N - 1), len = chance (g, 0.5) ? 1 : rndi (g, 1, 300), bnd ; if (a + len > N) len = N - a ; bnd = a + len ; int what = (int) rndi (g, 0, 5), oc = chance (g, 0.5) ? -1 : (int) rndi (g, 0, ch - 1) ;
		memcpy (y, x, N * ch * sizeof (float)) ;
		for (long i = a ; i < bnd ; i++) for (int c = 0 ; c < ch ; c++) if (oc < 0 || oc == c) y [i * ch + c] = what == 0 ? NAN : what == 1 ? INFINITY : what == 2 ? -INFINITY : what == 3 ? 3e38f : what == 4 ? x [i * ch + c] + 0.5f : 1e-40f ;
		history (conv, ch, x, N, &A, 1) ; history (conv, ch, y, N, &B, 0) ; n = A.n ;
		long pc = 0 ; for (long i = 0 ; i < n && i / ch < MAXF ; i++)
		{	long k = i / ch ; double reach = conv_reach (conv, rs [k]) ; long double p = ps [k] ; int c = (int) (i % ch) ;
			int same = A.v [i] == B.v [i] && !isnan (A.v [i]) ;
			if (!same) affected ++ ;
			if (oc >= 0 && c != oc ? 0 : p + reach >= a && p - reach <= bnd) continue ;
			checked ++ ; if (p > bnd) pc ++ ;
			if (!same) vh_fail ("locality", "frame %ld channel %d at position %.4Lf (ratio %.6g, reach %.1f) changed from %.9g to %.9g by a disturbance (%d) of input frames %ld..%ld%s", k, c, p, rs [k], reach, A.v [i], B.v [i], what, a, bnd - 1, oc >= 0 ? " of another channel" : "") ;
			}
		vh_stat ("frames_after_disturbance", pc) ;
		}
	else if (kind == 5)
	{	double amp = chance (g, 0.3) ? (conv >= ZOH ? 3.4e38 : 1e37) : chance (g, 0.3) ? 1e-30 : 1 ; int alt = chance (g, 0.5) ;
		for (long i = 0 ; i < N * ch ; i++) { double v = noise_at (idx + 5, i) ; if (alt) v = v < 0 ? -1 : 1 ; x [i] = (float) (amp * v) ; }
		history (conv, ch, x, N, &A, 1) ; n = A.n ;
		for (long i = 0 ; i < n && i / ch < MAXF ; i++)
		{	float v = A.v [i] ; checked ++ ; int c = (int) (i % ch) ;
			if (!isfinite (v) || fabs (v) > L * amp * 1.00001) vh_fail ("unbounded", "frame %ld channel %ld is %.9g though the input stays within %g", i / ch, i % ch, v, amp) ;
			if (conv >= ZOH)
			{	/* among (or between) the input samples next to the position */
				long q = (long) floorl (ps [i / ch]) ; double lo = 1e300, hi = -1e300 ; int hit = 0 ;
				for (long j = q - 2 ; j <= q + 1 ; j++) { long jj = j < 0 ? 0 : j >= N ? N - 1 : j ; double w = x [jj * ch + c] ; if (w < lo) lo = w ; if (w > hi) hi = w ; if (v == (float) w) hit = 1 ; }
				if (conv == ZOH && !hit) vh_fail ("not-a-sample", "ZOH frame %ld channel %d is %.9g, none of the input samples next to position %.4Lf", i / ch, c, v, ps [i / ch]) ;
				if (v < lo - 1e-6 * amp || v > hi + 1e-6 * amp) vh_fail ("not-between", "linear frame %ld channel %d is %.9g, outside of its neighbours %.9g..%.9g", i / ch, c, v, lo, hi) ;
				}
			}
		affected = 1 ;
		}
	else
	{	memset (x, 0, N * ch * sizeof (float)) ; if (chance (g, 0.3)) for (long i = 0 ; i < N * ch ; i++) if (noise_at (7, i) < 0) x [i] = -0.0f ;
		history (conv, ch, x, N, &A, 1) ; n = A.n ;
		for (long i = 0 ; i < n ; i++) { checked ++ ; if (A.v [i] != 0) vh_fail ("silence", "frame %ld channel %ld of silence is %.9g", i / ch, i % ch, A.v [i]) ; }
		affected = 1 ;
		}
	vh_stat ("samples_checked", checked) ; vh_stat ("samples_affected", affected) ;
	if (checked) vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + kind * 100 + vary * 7 + cbmode * 3 + style * 1009 + (uint64_t) nh * 31337) ;
	if (idx < 20) vh_sample ("%s: %s ch=%d ratio=%.6g%s, %d calls, %ld samples checked, %ld changed within reach", kn [kind], conv_name [conv], ch, r, vary ? " varying" : "", nh, checked, affected) ;
}

/* C11: histories with changing ratios against the position trajectory of the documentation and the reference model. */
#include "vh.h"
const char *vh_prop = "C11" ;
long vh_ncases (int t) { return t ? 40000 : 8000 ; }
#define MAXF 60000
static long double ps [MAXF] ; static double rs [MAXF] ; static unsigned char edge [MAXF] ;
static long nf ;
typedef struct { double last ; long double p ; } tr ;

static double clampr (double r) { return r < 1 / 256.0 ? 1 / 256.0 : r > 256 ? 256 : r ; }
static double thr (int conv) { return conv >= ZOH ? 1e-20 : 1e-10 ; }
/* the documented trajectory of one call that asked for outf frames and got gen */
static void advance (tr *t, int conv, double target, long outf, long gen)
{	double last = t->last, cur = last ;
	for (long k = 0 ; k < gen ; k++)
	{	if (fabs (last - target) > thr (conv)) cur = last + k * (target - last) / outf ;
		if (nf < MAXF) { ps [nf] = t->p ; rs [nf] = cur ; edge [nf] = k == 0 || k == gen - 1 || k == 1 ; nf ++ ; }
		t->p += 1.0L / cur ;
		}
	t->last = cur ;
}
static double next_ratio (rng *g, int style, double cur, double base, long call)
{	switch (style)
	{	case 0 : return clampr (cur * (1 + 0.02 * (rndu (g) - 0.5))) ;
		case 1 : return clampr (base * (1 + 0.3 * sin (call * 0.37))) ;
		case 2 : return chance (g, 0.5) ? cur : pick_ratio (g) ;
		case 3 : return chance (g, 0.7) ? cur : chance (g, 0.5) ? base : clampr (base / (1 + 60 * rndu (g))) ;	/* drops and recoveries */
		case 4 : return clampr (cur * (call & 1 ? 1 + 1e-7 : 1 - 1e-7)) ;
		case 5 : return chance (g, 0.8) ? cur : clampr (cur * exp (4 * rndu (g) - 2)) ;
		default : return call & 1 ? base : clampr (1 / base) ;
		}
}
/* The ratio falls far at a moment chosen anywhere in a long sinc stream: around moves of the internal buffer, just before and while
** the stream is drained.  Every frame from the fall on is compared. */
static void fall (rng *g, long idx)
{	static const int chs [] = { 1, 1, 2, 2, 4, 4, 6, 6, 3, 5, 7, 9 } ;
	int conv = chance (g, 0.75) ? FASTEST : MEDIUM, ch = chs [rndi (g, 0, 11)], atend = chance (g, 0.5), byset = chance (g, 0.3) ;
	long bl = conv_buflen (conv), N = rndi (g, bl / 3, 5 * bl / 2) ; double r0 = chance (g, 0.3) ? 1 : pick_ratio_range (g, 0.25, atend ? 40 : 3), b = vh_light ? 1.5e6 : vh_thorough ? 2e7 : 8e6 ;
	if (ch > 2 && !vh_thorough && N > bl * 3 / 2) N = bl * 3 / 2 ;
	while (N * r0 * conv_cost (conv, ch, r0) > 3 * b && r0 > 0.5) r0 /= 2 ;
	if (!atend && N < bl * 4 / 3 && chance (g, 0.5)) N = bl * 4 / 3 ;	/* the internal buffer is moved for the first time after about bl frames */
	long at = atend ? N - rndi (g, 0, chance (g, 0.5) ? 40 : 1500) : N > bl * 9 / 8 && chance (g, 0.7) ? bl - 200 + rndi (g, 0, bl / 6) : rndi (g, 0, N), calls = 0 ; if (at < 0) at = 0 ;
	float *x = make_signal (g, SIG_NOISE, N, ch) ; model m = { x, N, ch, conv } ; fvec out = { 0 } ; tr t = { r0, 0 } ; long pos = 0 ;
	vh_note ("fall: %s ch=%d ratio=%.17g N=%ld falls at %ld%s", conv_name [conv], ch, r0, N, at, byset ? " by src_set_ratio" : "") ; vh_steps (200000) ;
	SRC_STATE *st = vh_new (conv, ch) ; long blk = chance (g, 0.3) ? N : rndi (g, 50, 3000) ;
	while (t.p < at && calls < 20000)
	{	long inf = blk < N - pos ? blk : N - pos, outf = (long) ((at - t.p) * r0) + 1, lim = (long) (blk * r0) + 10 ; if (outf > lim) outf = lim ;
		int eoi = pos + inf == N ; nf = 0 ;
		cres c = vh_process (st, ch, x + pos * ch, inf, outf, r0, eoi, NULL) ; calls ++ ; pos += c.used ;
		advance (&t, conv, r0, outf, c.gen) ;
		if (eoi && c.gen == 0) break ;
		}
	/* from here on every frame counts */
	nf = 0 ; double cur = pick_ratio_range (g, 1 / 256.0, 0.1), minr = cur, want_b = b ; int n2 = (int) rndi (g, 1, 8) ;
	for (int i = 0 ; i < n2 && want_b > 0 ; i++)
	{	if (i && chance (g, 0.4)) cur = chance (g, 0.3) ? r0 : pick_ratio_range (g, 1 / 256.0, 1) ; if (cur < minr) minr = cur ;
		if (byset && (i == 0 || chance (g, 0.3))) { if (src_set_ratio (st, cur)) vh_fail ("set-ratio", "src_set_ratio (%.17g) failed", cur) ; t.last = cur ; }
		double cost = 2 * conv_reach (conv, minr) + ch * conv_reach (conv, minr) / 8 ; long outf = rndi (g, 1, 60), mo = (long) (want_b / cost) + 1, inf = chance (g, 0.7) || blk > N - pos ? N - pos : blk ; if (outf > mo) outf = mo ;
		cres c = vh_process (st, ch, x + pos * ch, inf, outf, cur, pos + inf == N, &out) ; calls ++ ; pos += c.used ; want_b -= c.gen * cost + 100 ; double began = t.last ;
		advance (&t, conv, cur, outf, c.gen) ;
		/* all input supplied and its end told: the call stops short only where the next frame is the last or beyond */
		if (pos == N && c.gen < outf && c.used == inf && t.p + 1 / began + 1 < N) vh_fail ("lost-tail", "a call at ratio %.9g after %.9g generated %ld of %ld frames, the next one is at position %Lg of %ld", cur, began, c.gen, outf, t.p, N) ;
		}
	vh_delete (st) ;
	if (out.n / ch != nf) vh_fail ("harness", "bookkeeping %ld %ld", out.n / ch, nf) ;
	for (long k = 0 ; k < nf ; k++) { int c = (int) rndi (g, 0, ch - 1) ; model_check (&m, c, ps [k], rs [k], out.v [k * ch + c], 1, "fall", k) ; }
	if (nf && ps [nf - 1] > N + 1e-6 * (1 + N)) vh_fail ("beyond-end", "frame %ld was generated at input position %.9Lg of %ld", nf - 1, ps [nf - 1], N) ;
	vh_stat ("calls", calls) ; vh_stat ("falls", 1) ; vh_stat ("frames_out", nf) ; vh_stat ("frames_checked", nf) ;
	if (nf) vh_sig (conv * 1000003ull + ch * 4099 + 77 + (uint64_t) at * 31 + atend * 7) ;
	if (idx < 40) vh_sample ("%s ch=%d N=%ld: ratio %.4g falls at position %ld, %ld frames from there on checked", conv_name [conv], ch, N, r0, at, nf) ;
	fv_free (&out) ;
}
void vh_case (rng *g, long idx)
{	if (idx % 8 == 5) { fall (g, idx) ; return ; }
	int conv = pick_conv (g), ch = chance (g, 0.5) ? 1 : pick_channels (g, conv, 128) ;
	double r = pick_ratio (g), budget = vh_light ? 1e6 : vh_thorough ? 8e6 : 3e6 ;
	int style = rndi (g, 0, 6), useset = chance (g, 0.3), viacb = chance (g, 0.2) ;
	if (style == 3 && chance (g, 0.6)) r = pick_ratio_range (g, 0.3, 256) ;
	if (style == 6 || style == 1) r = pick_ratio_range (g, 0.1, 10) ;
	long N = chance (g, 0.15) ? rndi (g, 1, 600) : rndi (g, 600, 60000) ; if (N * ch > 1500000) N = 1500000 / ch ;
	float *x = make_signal (g, SIG_NOISE, N, ch) ; double peak = 1 ;
	model m = { x, N, ch, conv } ;
	fvec out = { 0 } ; nf = 0 ; tr t = { 0, 0 } ;
	double cur = r, minr = r, b = budget ; long pos = 0, calls = 0 ;
	vh_note ("%s ch=%d first ratio=%.17g N=%ld style=%d%s%s", conv_name [conv], ch, r, N, style, useset ? " set_ratio" : "", viacb ? " callback" : "") ;
	vh_steps (3000000) ;
	int finished = 0 ;
	if (viacb)
	{	/* steps of the ratio through src_set_ratio and reads at exactly that ratio; or reads at ever other ratios, all served from one
		** supplied block, which ramp like a src_process call (up to the read that crosses the end of the block) */
		cbsrc c ; int e = -1, ramp = chance (g, 0.5) ; int bst = rndi (g, BLK_SMALL, BLK_EXACT) ; cbsrc_init (&c, g, x, N, ch, ramp ? BLK_ALL : N < 2000 ? (int) rndi (g, 0, 6) : bst) ;
		SRC_STATE *st = src_callback_new (vh_cb, conv, ch, &e, &c) ; if (!st) vh_fail ("new-failed", "%d", e) ;
		while (calls < 200 && b > 0 && nf < MAXF / 2)
		{	if (calls) cur = next_ratio (g, style, cur, r, calls) ; if (cur < minr) minr = cur ;
			if (!ramp || chance (g, useset ? 0.3 : 0)) { if (src_set_ratio (st, cur)) vh_fail ("set-ratio", "src_set_ratio (%.17g) failed", cur) ; t.last = cur ; }
			if (t.last == 0) t.last = cur ;
			long asked = c.calls, had = out.n ;
			double cost = conv_cost (conv, ch, minr) ; long want = rndi (g, 1, chance (g, 0.5) ? 40 : chance (g, 0.7) ? 800 : 20000), mo = (long) (b / 2 / cost) + 1 ; if (want > mo) want = mo ;
			long n = vh_read (st, ch, cur, want, &out) ; calls ++ ; b -= n * cost + 50 ;
			if (ramp && calls > 1 && c.calls != asked && n > 0) { out.n = had ; break ; }
			if (ramp && n == want) vh_stat ("ramping_reads", 1) ;
			if (ramp && calls == 1 && c.calls > 1 && n > 0) { out.n = had ; break ; }
			advance (&t, conv, cur, want, n) ;
			if (ramp && n < want) break ;
			if (n < want) { finished = n == 0 || cur == t.last ; break ; }
			}
		vh_delete (st) ; cbsrc_done (&c) ;
		}
	else
	{	SRC_STATE *st = vh_new (conv, ch) ;
		int ist = rndi (g, 0, 6), ost = rndi (g, 0, 6) ; long exi = rndi (g, 1, 6000), exo = rndi (g, 1, 2000) ; double zero = chance (g, 0.4) ? 0.15 : 0 ;
		if (chance (g, 0.2))
		{	/* an earlier life that a reset must wipe out */
			vh_check_progress = 0 ; long k = N < 500 ? N : 500 ; vh_process (st, ch, x, k, 300, pick_ratio_range (g, 0.05, 256), 0, NULL) ; vh_check_progress = 1 ;
			if (chance (g, 0.5)) src_set_ratio (st, pick_ratio (g)) ;
			src_reset (st) ;
			}
		if (useset && chance (g, 0.5)) { double q = pick_ratio_range (g, minr / 2, 256) ; if (src_set_ratio (st, q)) vh_fail ("set-ratio", "failed") ; t.last = q ; if (q < minr) minr = q ; }
		while (calls < 1500 && b > 0 && nf < MAXF / 2)
		{	if (calls && chance (g, 0.6)) cur = next_ratio (g, style, cur, r, calls) ; if (cur < minr) minr = cur ;
			if (useset && calls && chance (g, 0.2)) { double q = chance (g, 0.7) ? cur : next_ratio (g, style, cur, r, calls) ; if (q < minr) minr = q ; if (src_set_ratio (st, q)) vh_fail ("set-ratio", "src_set_ratio (%.17g) failed", q) ; t.last = q ; }
			double cost = conv_cost (conv, ch, minr) ; long mo = (long) (b / 2 / cost) + 1 ;
			long inf = vh_block (g, ist, exi), outf = vh_block (g, ost, exo) ;
			{ long lim = chance (g, 0.1) ? 30000 : 5000 ; if (outf > lim) outf = lim ; } if (outf > mo) outf = mo ;
			if (inf > N - pos) inf = N - pos ;
			if (zero > 0 && chance (g, zero))
			{	/* calls without input, without room for output, or neither; the ratio in force moves only with the frames generated */
				int k = (int) rndi (g, 0, 2) ; if (k != 0) inf = 0 ; if (k != 1) outf = 0 ;
				}
			int eoi = pos + inf == N ;
			if (t.last == 0) t.last = cur ;		/* first call after creation or reset: its own ratio at once */
			cres c = vh_process (st, ch, x + pos * ch, inf, outf, cur, eoi, &out) ;
			calls ++ ; pos += c.used ; b -= c.gen * cost + inf * ch * 0.3 + 50 ;
			advance (&t, conv, cur, outf, c.gen) ;
			if (eoi && pos == N && c.gen == 0 && outf > 0) { finished = 1 ; break ; }
			}
		vh_delete (st) ;
		}
	long n = out.n / ch ; if (n != nf) { if (nf < MAXF) vh_fail ("harness", "bookkeeping %ld %ld", n, nf) ; n = nf ; }
	/* check: all frames when cheap, call edges and random ones otherwise */
	double cb = vh_light ? 3e5 : vh_thorough ? 6e6 : 2e6 ; long checked = 0 ;
	long want = 0 ; double per = 0 ; for (long k = 0 ; k < n ; k++) per += 3 * conv_reach (conv, rs [k]) ;
	double pp = per > cb && per > 0 ? cb / per : 1 ; (void) want ;
	for (long k = 0 ; k < n ; k++)
	{	if (pp < 1 && !chance (g, edge [k] ? 6 * pp + 0.02 : pp)) continue ;
		int c = ch > 1 ? (int) rndi (g, 0, ch - 1) : 0 ;
		model_check (&m, c, ps [k], rs [k], out.v [k * ch + c], peak, "trajectory", k) ; checked ++ ;
		}
	if (n > 0 && ps [n - 1] > N + 1e-6 * (1 + N)) vh_fail ("beyond-end", "frame %ld was generated at input position %.9Lg of %ld", n - 1, ps [n - 1], N) ;
	if (finished && N > 0)
	{	/* the last call generated nothing (a short read of the callback interface ended with such a call inside): its first frame would have used the last ratio */
		if (t.p + 1 / t.last + 1 < N) vh_fail ("lost-tail", "the stream of %ld frames was finished with the next output frame at position %.9Lg (ratio %.9g)", N, t.p, t.last) ;
		}
	vh_stat ("calls", calls) ; vh_stat ("frames_out", n) ; vh_stat ("frames_checked", checked) ; vh_stat ("finished_streams", finished) ;
	if (checked) vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + style * 100 + useset * 7 + viacb * 3 + (uint64_t) calls * 7919) ;
	if (idx < 20) vh_sample ("%s ch=%d first ratio=%.6g style=%d N=%ld: %ld calls, %ld of %ld frames checked against the trajectory, end position %.3Lf", conv_name [conv], ch, r, style, N, calls, checked, n, t.p) ;
	fv_free (&out) ;
}

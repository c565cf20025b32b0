/* C01: random contract-respecting API histories under the sanitizers; oracle = sanitizers, library asserts, guards,
** error codes and the per-call invariants of vh_process. */
#include "vh.h"
const char *vh_prop = "C01" ;
long vh_ncases (int t) { return t ? 60000 : 9000 ; }
#define POOL (1 << 19)
static float pool [POOL + 4096] ;
static const long channel_limit_zl = 300 ;

typedef struct { SRC_STATE *st ; int conv, ch, cb, ended ; double ratio ; cbsrc *src ; } H ;
static H hs [4] ; static int nh ;
static cbsrc srcs [64] ; static int nsrc ;
static void clean (void *a) { (void) a ; for (int i = 0 ; i < nh ; i++) if (hs [i].st) src_delete (hs [i].st) ; nh = 0 ; nsrc = 0 ; }

void vh_init (void)
{	for (long i = 0 ; i < POOL + 4096 ; i++)
	{	float v = noise_at (99, i) ;
		long b = (i >> 14) & 15 ;
		if (b == 7) v *= 1e30f ;
		else if (b == 9) v *= 1e-39f ;
		else if (b == 11) v = i % 97 == 0 ? INFINITY : i % 89 == 0 ? NAN : v ;
		else if (b == 13) v *= 3e38f ;
		pool [i] = v ;
		}
}

static double next_ratio (rng *g, double cur)
{	switch (rndi (g, 0, 7))
	{	case 0 : case 1 : case 2 : return cur ;
		case 3 : return cur * (1 + 0.01 * (rndu (g) - 0.5)) ;
		case 4 : return 1 / 256.0 ;
		case 5 : return 256.0 ;
		default : return pick_ratio (g) ;
		}
}
static double fixr (double r) { return r < 1 / 256.0 ? 1 / 256.0 : r > 256 ? 256 : r ; }

static long pick_in (rng *g, H *h)
{	long bl = conv_buflen (h->conv), lim = POOL / h->ch, n ;
	switch (rndi (g, 0, 9))
	{	case 0 : n = 0 ; break ;
		case 1 : n = 1 ; break ;
		case 2 : n = rndi (g, 1, 10) ; break ;
		case 3 : n = rndi (g, 1, 600) ; break ;
		case 4 : n = bl / 3 + rndi (g, -5, 5) ; break ;
		case 5 : n = bl + rndi (g, -30, 30) ; break ;
		case 6 : n = bl * 2 / 3 + rndi (g, -300, 300) ; break ;
		case 7 : n = rndi (g, 1, 2 * bl) ; break ;
		default : n = rndi (g, 1, 6000) ; break ;
		}
	return n < lim ? n : lim ;
}

/* input handed over a frame or two at a time, only as the converter asks for more: every frame is computed with no more input in hand
** than the library itself thinks it needs, while the ratio creeps, steps and drops */
static void starved (rng *g, long idx)
{	int conv = pick_conv (g), ch = chance (g, 0.6) ? (int) rndi (g, 1, 7) : pick_channels (g, conv, 128), style = (int) rndi (g, 0, 3), end = chance (g, 0.5) ;
	double r = chance (g, 0.7) ? pick_ratio_range (g, 1 / 256., 1.5) : pick_ratio (g), r0 = r, budget = vh_thorough ? 3e6 : 1.2e6, amount = pow (10, -rndi (g, 1, 7)) * (1 + 9 * rndu (g)) ; long lim = POOL / ch, calls = 0, gen = 0, pos = 0, skip = 0 ; uint64_t sig = 77 ;
	if (amount > 0.5) amount = 0.5 ;
	const float *x = pool + rndi (g, 0, 4095) ; SRC_STATE *st = vh_new (conv, ch) ;
	vh_note ("starved: %s ch=%d ratio=%.17g style=%d amount %.3g", conv_name [conv], ch, r, style, amount) ;
	skip = (long) (conv_reach (conv, r) * (chance (g, 0.5) ? 0.95 : rndu (g))) ; if (skip > lim / 2) skip = lim / 2 ;
	for (long give = skip ; calls < 3000 && budget > 0 && pos + give < lim ; calls ++)
	{	long out = chance (g, 0.8) ? 1 : rndi (g, 1, 12) ;
		if (conv_cost (conv, ch, r) * out > budget) out = 1 ;
		cres c = vh_process (st, ch, x + pos * ch, give, out, r, 0, NULL) ; pos += c.used ; gen += c.gen ; budget -= c.gen * conv_cost (conv, ch, r) + 60 ;
		give = c.gen < out ? (give - c.used) + rndi (g, 1, chance (g, 0.7) ? 1 : (long) (1 / r) + 2) : give - c.used ;
		if (c.gen > 0 && chance (g, 0.5))
		{	r = fixr (style == 0 ? r * (1 - amount * rndu (g)) : style == 1 ? r * (1 + amount * (rndu (g) - 0.5)) : style == 2 ? (r == r0 ? r0 / (1 + amount) : r0) : chance (g, 0.1) ? r0 * (0.2 + 2 * rndu (g)) : r * (1 - amount)) ;
			if (chance (g, 0.7) && src_set_ratio (st, r)) vh_fail ("set-ratio", "src_set_ratio (%.17g) failed", r) ;
			}
		}
	if (end) for (long k = 0 ; k < 3 && budget > 0 ; k++) { long out = (long) (budget / conv_cost (conv, ch, r) / 3) + 1 ; if (out > 2000) out = 2000 ; cres c = vh_process (st, ch, NULL, 0, out, r, 1, NULL) ; budget -= c.gen * conv_cost (conv, ch, r) ; gen += c.gen ; }
	vh_delete (st) ; vh_stat ("process_calls", calls) ; vh_stat ("frames_out", gen) ; vh_stat ("starved", 1) ;
	sig = sig * 31 + conv * 1009 + ch * 17 + ratio_classi (r0) * 131071ull + style + calls * 7919ull + gen * 65537ull ; if (gen) vh_sig (sig) ;
	if (idx < 20) vh_sample ("starved: %s ch=%d ratio=%.6g style=%d: %ld calls, %ld frames in, %ld out", conv_name [conv], ch, r0, style, calls, pos, gen) ;
}
void vh_case (rng *g, long idx)
{	double budget = vh_thorough ? 4e6 : 1.5e6, mem = 6e6 ;
	uint64_t sig = 0 ;
	vh_cleanup (clean, NULL) ; vh_inf_in = 1 ; vh_check_progress = 0 ;
	nh = 0 ;
	if (idx % 6 == 5) { starved (g, idx) ; return ; }
	int nops = rndi (g, 4, 60), nul = chance (g, 0.3) ;
	int conv0 = pick_conv (g) ;
	int tiny = chance (g, 0.25) ;	/* histories of very small blocks */
	vh_note ("random history") ;
	for (int op = 0 ; op < nops && budget > 0 && mem > 0 ; op++)
	{	int what = rndi (g, 0, 19) ;
		if (nh == 0 || (what == 0 && nh < 4))
		{	H *h = &hs [nh] ; memset (h, 0, sizeof *h) ;
			h->conv = chance (g, 0.8) ? conv0 : pick_conv (g) ; h->ch = pick_channels (g, h->conv, h->conv >= ZOH ? channel_limit_zl : 128) ;
			h->ratio = pick_ratio (g) ;
			if (chance (g, 0.25) && nsrc < 64)
			{	int e = -1 ;
				h->cb = 1 ; h->src = &srcs [nsrc++] ;
				cbsrc_init (h->src, g, pool + rndi (g, 0, 4095), rndi (g, 0, POOL / h->ch), h->ch, rndi (g, BLK_ONE, BLK_EXACT)) ;
				h->st = src_callback_new (vh_cb, h->conv, h->ch, &e, h->src) ;
				if (!h->st || e) vh_fail ("new-failed", "src_callback_new failed: %d", e) ;
				}
			else h->st = vh_new (h->conv, h->ch) ;
			if (src_get_channels (h->st) != h->ch) vh_fail ("channels", "src_get_channels %d for %d", src_get_channels (h->st), h->ch) ;
			nh ++ ;
			continue ;
			}
		H *h = &hs [rndi (g, 0, nh - 1)] ;
		sig = sig * 31 + what * 16 + h->conv * 4 + (h->ch > 2 ? 2 : h->ch) + 1000 * ratio_classi (fixr (h->ratio)) ;
		if (what == 1)
		{	double r = fixr (next_ratio (g, h->ratio)) ;
			if (src_set_ratio (h->st, r) != 0) vh_fail ("set-ratio", "src_set_ratio (%.17g) failed", r) ;
			if (chance (g, 0.7)) h->ratio = r ;
			}
		else if (what == 2) { if (src_reset (h->st)) vh_fail ("reset", "src_reset failed") ; h->ended = 0 ; }
		else if (what == 3 && nh < 4)
		{	int e = -1 ; H *n = &hs [nh] ;
			if (h->cb) continue ;	/* clones in callback mode are C06's */
			*n = *h ; n->st = src_clone (h->st, &e) ;
			if (!n->st || e) vh_fail ("clone-failed", "src_clone failed: %d", e) ;
			nh ++ ;
			}
		else if (what == 4 && nh > 1)
		{	vh_delete (h->st) ; *h = hs [--nh] ; hs [nh].st = NULL ; }
		else
		{	double r = h->ratio = fixr (next_ratio (g, h->ratio)) ;
			double worst = conv_cost (h->conv, h->ch, r) ;
			long maxout = (long) (budget / worst) + 1 ;
			long inf = tiny ? rndi (g, 0, 3) : pick_in (g, h) ;
			if (inf * h->ch > 600000) inf = 600000 / h->ch ;
			long outf = tiny && chance (g, 0.6) ? rndi (g, 0, 4) : chance (g, 0.15) ? rndi (g, 0, 3) : chance (g, 0.5) ? (long) (inf * r) + rndi (g, 0, 8) : rndi (g, 1, 4000) ;
			if (outf > maxout) outf = maxout ;
			if (outf * h->ch > 800000) outf = 800000 / h->ch ;
			mem -= (inf + outf) * h->ch ;
			if (h->cb)
			{	if (outf > 30000 * r) outf = (long) (30000 * r) ;
				if (outf < 1) outf = 1 ;
				/* a call that emits one frame keeps the previous ratio, so small blocks may run at any earlier ratio */
				if (h->src->style == BLK_ONE || h->src->style == BLK_TINY) outf = outf > 300 ? 300 : outf ;
				vh_steps (256 * outf + 100000) ;
				long n = vh_read (h->st, h->ch, r, outf, NULL) ;
				if (src_error (h->st)) vh_fail ("read-error", "src_callback_read: error %d", src_error (h->st)) ;
				if (n < outf && h->src->pos < h->src->N) vh_fail ("short-read", "read %ld of %ld before the end of input", n, outf) ;
				vh_steps (0) ; budget -= n * worst ; vh_stat ("frames_out", n) ; vh_stat ("reads", 1) ;
				if (h->src->ended) h->ended = 1 ;
				}
			else
			{	const float *in = pool + rndi (g, 0, 4095) + (chance (g, 0.7) ? 0 : (long) rndi (g, 0, POOL - inf * h->ch > 0 ? POOL - inf * h->ch : 0)) ;
				if (in + inf * h->ch > pool + POOL + 4096) in = pool ;
				int eoi = chance (g, h->ended ? 0.8 : 0.12) ;
				if (h->ended && chance (g, 0.8)) inf = 0 ;
				vh_null_when_empty = nul ;
				int rep = tiny ? rndi (g, 1, 60) : 1 ;
				for (int i = 0 ; i < rep ; i++)
				{	cres c = vh_process (h->st, h->ch, in, inf, outf, r, eoi, NULL) ;
					budget -= c.gen * worst + 20 ; vh_stat ("frames_in", c.used) ; vh_stat ("frames_out", c.gen) ; vh_stat ("process_calls", 1) ;
					if (c.gen > 0) sig = sig * 7 + (c.used == inf) * 2 + (c.gen == outf) ;
					if (tiny && chance (g, 0.3)) inf = rndi (g, 0, 3) ;
					}
				if (eoi) h->ended = 1 ;
				}
			}
		}
	for (int i = 0 ; i < nh ; i++) { vh_delete (hs [i].st) ; hs [i].st = NULL ; }
	vh_sig (sig) ;
	if (idx < 3) vh_sample ("%d operations on up to 4 handles, first converter %s", nops, conv_name [conv0]) ;
	for (int i = 0 ; i < nsrc ; i++) cbsrc_done (&srcs [i]) ;
}

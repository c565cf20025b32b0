/* C14: the callback protocol.  The callback is the monitor: it sees when it is called, with what pointer, how much was supplied
** before, and takes the previous buffer away at the first moment it may. */
#include "vh.h"
const char *vh_prop = "C14" ;
long vh_ncases (int t) { return t ? 40000 : 9000 ; }
enum { BUF_FRESH, BUF_REUSED, BUF_DIRECT, BUF_PAGES } ;
typedef struct src14
{	uint64_t magic ; const float *x ; long N, pos ; int ch, conv, buf ; double r ;
	int style ; long exact ; rng g ; float *cur ; long cur_n, cur_len ; long calls, ended ;
	int inread, incalls ; long done, want ;		/* frames returned by earlier reads, frames asked for by this one */
	int strict ; int null_end ; long maxcall ;
	SRC_STATE *inner, *self ; fvec chain ;		/* chained converter */
} src14 ;
static src14 *null_user ;
#define MAGIC 0x5ca1ab1e0ddba11ull
static void intact (src14 *s)
{	if (s->cur && s->cur_n > 0 && s->buf != BUF_DIRECT && memcmp (s->cur, s->x + (s->pos - s->cur_n) * s->ch, s->cur_n * s->ch * sizeof (float)))
		vh_fail ("supplied-modified", "the block of %ld frames the callback supplied was modified", s->cur_n) ;
	s->cur_n = 0 ;
}
static void drop (src14 *s)
{	if (!s->cur) return ;
	if (s->buf == BUF_PAGES) { ro_free (s->cur, s->cur_len) ; s->cur = NULL ; return ; }	/* read-only while valid, no memory afterwards */
	for (long i = 0 ; i < gb_len (s->cur) ; i++) s->cur [i] = 1e20f ;
	if (s->buf == BUF_FRESH) gb_free (s->cur) ;
	if (s->buf == BUF_FRESH) s->cur = NULL ;
}
static long cb14 (void *user, float **data)
{	src14 *s = user ? user : null_user ; long n ;
	vh_step () ;
	if (!s || s->magic != MAGIC || (user && user == (void *) null_user)) vh_fail ("user-pointer", "the callback was given the pointer %p, which was not registered", user) ;
	if (!s->inread) vh_fail ("callback-outside-read", "the callback was called outside src_callback_read") ;
	if (!data) vh_fail ("callback-no-data", "the callback was called without a place to put the data pointer") ;
	s->calls ++ ; 
	if (s->strict)
	{	/* what was supplied so far must have been needed: the next output frame is at most at (done + want - 1) / r */
		long need = needed_at_most (s->conv, s->r, s->done + s->want - 1) ;
		/* at the start of a read any number of earlier frames may sit, consumed, in the buffer of a sinc converter */
		if (! (s->incalls == 0 && s->conv < ZOH) && s->pos > need) vh_fail ("called-early", "callback called while %ld frames had been supplied and the %ld + %ld output frames at ratio %.9g need no more than %ld", s->pos, s->done, s->want, s->r, need + 1) ;
		}
	s->incalls ++ ;
	if (s->self)	/* a callback may look at its converter, and confirm the ratio */
	{	if (src_get_channels (s->self) != s->ch) vh_fail ("query-in-callback", "src_get_channels gives %d instead of %d", src_get_channels (s->self), s->ch) ;
		if ((s->calls & 3) == 1 && src_set_ratio (s->self, s->r)) vh_fail ("query-in-callback", "src_set_ratio (%.17g) failed in the callback", s->r) ;
		}
	if (s->inner)
	{	/* the callback reads from another callback converter */
		n = vh_block (&s->g, s->style, s->exact) ; if (n > 3000) n = 3000 ;
		drop (s) ; if (s->cur) { gb_free (s->cur) ; s->cur = NULL ; }
		src14 *in = (src14 *) s->x ;
		s->cur = gb_alloc (n * s->ch) ; in->inread = 1 ; in->incalls = 0 ; in->want = n ;
		long k = src_callback_read (s->inner, in->r, n, s->cur) ;
		in->inread = 0 ; in->done += k ;
		if (k < 0 || k > n) vh_fail ("read-range", "inner src_callback_read returned %ld of %ld", k, n) ;
		fv_add (&s->chain, s->cur, k * s->ch) ; s->pos += k ;
		if (k == 0) { s->ended ++ ; return 0 ; }
		*data = s->cur ; return k ;
		}
	n = vh_block (&s->g, s->style, s->exact) ; if (n > s->N - s->pos) n = s->N - s->pos ;
	intact (s) ; drop (s) ;
	if (n == 0) { s->ended ++ ; if (s->null_end) *data = NULL ; return 0 ; }
	const float *from = s->x + s->pos * s->ch ;
	if (s->buf == BUF_PAGES) s->cur = ro_copy (from, s->cur_len = n * s->ch) ;
	else if (s->buf == BUF_FRESH) s->cur = gb_alloc (n * s->ch) ;
	else if (s->buf == BUF_REUSED)
	{	if (n * s->ch > 20000 * s->ch) n = 20000 ;
		if (!s->cur) s->cur = gb_alloc ((s->N < 20000 ? s->N : 20000) * s->ch) ;
		}
	if (s->buf == BUF_DIRECT) *data = (float *) from ;
	else if (s->buf == BUF_PAGES) *data = s->cur ;
	else { memcpy (s->cur, from, n * s->ch * sizeof (float)) ; *data = s->cur ; }
	s->cur_n = n ; s->pos += n ;
	return n ;
}
static void src_init (src14 *s, rng *g, const float *x, long N, int ch, int conv, double r)
{	memset (s, 0, sizeof *s) ; s->magic = MAGIC ; s->x = x ; s->N = N ; s->ch = ch ; s->conv = conv ; s->r = r ;
	s->buf = (int) rndi (g, 0, 3) ; do s->style = (int) rndi (g, BLK_ALL, BLK_EXACT) ; while (N > 6000 && (s->style == BLK_ONE || s->style == BLK_TINY)) ;
	s->exact = rndi (g, 1, 6000) ; s->g.s = rnd (g) ; s->null_end = chance (g, 0.4) ;
	if (N > 2000 && s->style == BLK_EXACT && s->exact < 20) s->exact = 20 ;
}
static long reads, errs ;
static long read14 (SRC_STATE *st, src14 *s, double r, long want, fvec *out)
{	s->inread = 1 ; s->incalls = 0 ; s->want = want ; s->r = r ; long e0 = s->ended ;
	long n = vh_read (st, s->ch, r, want, out) ; reads ++ ;
	s->inread = 0 ; s->done += n ;
	if (n < want && s->ended == e0) vh_fail ("short-read", "src_callback_read returned %ld of %ld frames although the callback did not end the input", n, want) ;
	return n ;
}
/* a read that must fail or return nothing, without disturbing the stream */
static void bad_read (rng *g, SRC_STATE *st, src14 *s, double r)
{	static const double br [] = { 0, -1, 256.1, 0.0039, 1e300, -0.0 } ; float b [4] = { 7, 7, 7, 7 } ; double q = chance (g, 0.2) ? NAN : chance (g, 0.1) ? INFINITY : br [rndi (g, 0, 5)] ;
	long n, c0 = s->calls, p0 = s->pos ; int kind = (int) rndi (g, 0, 3) ; int e ;
	s->inread = 1 ; s->incalls = 0 ; s->want = 1 ; errs ++ ;
	switch (kind)
	{	case 0 : n = src_callback_read (st, q, s->ch <= 4 ? 1 : rndi (g, 1, 100), b) ; break ;
		case 1 : s->want = rndi (g, 1, 20) ; n = src_callback_read (st, r, s->want, NULL) ; break ;
		case 2 : n = src_callback_read (st, r, 0, b) ; break ;
		default : n = src_callback_read (st, r, -rndi (g, 1, 1000000), b) ; break ;
		}
	s->inread = 0 ; e = src_error (st) ;
	if (n != 0) vh_fail ("error-read", "an invalid read (kind %d, ratio %g) returned %ld", kind, q, n) ;
	for (int i = 0 ; i < 4 ; i++) if (b [i] != 7) vh_fail ("error-read-wrote", "an invalid read (kind %d) wrote output", kind) ;
	if (kind == 0 && e != 6) vh_fail ("error-code", "a read with ratio %g left src_error %d (%s)", q, e, src_strerror (e)) ;
	if (kind == 1 && e != 4) vh_fail ("error-code", "a read into NULL left src_error %d", e) ;
	if (kind != 1 && (s->calls != c0 || s->pos != p0)) vh_fail ("error-read-called", "an invalid read (kind %d) called the callback", kind) ;
	if (s->calls - c0 > 1) vh_fail ("error-read-called", "a read into NULL called the callback %ld times", s->calls - c0) ;
}
static void all_reads (rng *g, SRC_STATE *st, src14 *s, double r, int style, long exact, double perr, fvec *out)
{	long lim = (long) (s->N * r) + 16 ;
	for (;;)
	{	if (chance (g, perr)) bad_read (g, st, s, r) ;
		long want = vh_block (g, style, exact) ; if (want > lim) want = lim ;
		long n = read14 (st, s, r, want, out) ;
		if (n < want) break ;
		}
	if (s->pos != s->N) vh_fail ("unused", "the stream ended with %ld of %ld frames asked for", s->pos, s->N) ;
	if (chance (g, 0.5)) bad_read (g, st, s, r) ;
	for (int i = 0 ; i < 3 ; i++)
	{	long n = read14 (st, s, r, rndi (g, 1, 500), NULL) ;
		if (n) vh_fail ("after-end", "%ld frames after the end of the stream", n) ;
		}
}
static uint64_t hash_of (const float *x, long n)
{	const uint32_t *q = (const uint32_t *) x ; uint64_t h = 1469598103934665603ull ;
	for (long i = 0 ; i < n ; i++) h = (h ^ q [i]) * 1099511628211ull ;
	return h ;
}
static void feed_free (void *p) { fv_free (p) ; }
static fvec out, ref, mid, out2 ;
/* reads into the very memory the callback supplied: refused, nothing written, nothing lost */
typedef struct { float *x ; long N, ch ; int calls ; } ov14 ;
static long cb_ov (void *u, float **d) { ov14 *o = u ; vh_step () ; if (o->calls ++) return 0 ; *d = o->x ; return o->N ; }
static void overlap_reads (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), e, tries = 0, refused = 0 ; double r = pick_ratio (g), b = vh_light ? 1e6 : 3e6 ; long want = rndi (g, 1, 100), past = 0, N, room ;
	while (want > 1 && want * conv_cost (conv, ch, r) > b / 8) want /= 2 ;
	long reads = rndi (g, 0, 4) ; if (reads * want * conv_cost (conv, ch, r) > b) reads = 0 ;
	/* the last frame is certainly still pending while the reads and the internal buffer do not reach it */
	N = reads ? (long) (reads * want / r) + (conv < ZOH ? 2 * conv_buflen (conv) : 300) + rndi (g, 1, 100) : rndi (g, 1, 2000) ; if (N * ch > 4000000) { reads = 0 ; N = 100 ; }
	room = want * ch ; float *mem = gb_alloc (N * ch + 2 * room), *x = mem + room ; ov14 o = { x, N, ch, 0 } ;
	for (long i = 0 ; i < N * ch + 2 * room ; i++) mem [i] = noise_at (idx, i) ;
	vh_note ("overlapping reads: %s ch=%d ratio=%.17g N=%ld %ld reads of %ld", conv_name [conv], ch, r, N, reads, want) ; vh_steps (1000) ;
	uint64_t h = hash_of (mem, N * ch + 2 * room) ; long fr = reads * want + want ; while (fr > want && fr * conv_cost (conv, ch, r) > b) fr = want ;
	float *y = gb_alloc (fr * ch), *z = gb_alloc (fr * ch) ; SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = x ; d.input_frames = N ; d.data_out = z ; d.output_frames = fr ; d.src_ratio = r ; d.end_of_input = 1 ;
	e = src_simple (&d, conv, ch) ; if (e) vh_fail ("simple", "%d", e) ;
	SRC_STATE *st = src_callback_new (cb_ov, conv, ch, &e, &o) ; if (!st || e) vh_fail ("new-failed", "%d", e) ;
	while (past < d.output_frames_gen)
	{	if (tries ++ < 6 && past + want <= reads * want && chance (g, 0.6))
		{	/* into the last frame or around it or, before anything was supplied, anywhere across the block */
			long k = past ? 0 : rndi (g, 0, 2), at = k == 0 ? (N - 1) * ch - rndi (g, 0, (want - 1) * ch) + rndi (g, 0, ch - 1) : k == 1 ? -rndi (g, 0, want * ch - 1) : rndi (g, 0, N * ch - 1), n ;
			n = src_callback_read (st, r, want, x + at) ; refused ++ ;
			if (n) vh_fail ("overlap-read", "a read of %ld frames into the supplied block (%ld frames, at sample %ld) returned %ld", want, N, at, n) ;
			if (src_error (st) != 16) vh_fail ("error-code", "a read into the supplied block left src_error %d", src_error (st)) ;
			if (hash_of (mem, N * ch + 2 * room) != h) vh_fail ("error-read-wrote", "a read into the supplied block wrote there") ;
			continue ;
			}
		long n = src_callback_read (st, r, fr - past < want ? fr - past : want, y + past * ch) ; if (n < 0 || n > want) vh_fail ("read-range", "%ld", n) ;
		if (n == 0) break ;
		past += n ;
		}
	if (labs (past - d.output_frames_gen) > 1) vh_fail ("lost", "%ld frames after refused reads, %ld in one call", past, d.output_frames_gen) ;
	long m = past < d.output_frames_gen ? past : d.output_frames_gen ; fvec a = { y, m * ch, 0 }, c = { z, m * ch, 0 } ; cmp_streams (conv, ch, r, &a, &c, 1, 1, "stream-differs", "reads with refused ones between and one call") ;
	src_delete (st) ; gb_check (y, "output") ; vh_stat ("error_reads", refused) ; vh_stat ("overlapping_reads", refused) ; vh_stat ("frames_checked", m) ;
	if (m && refused) vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + 1100 + refused * 31 + reads * 7919) ;
}
void vh_case (rng *g, long idx)
{	if (idx % 17 == 11) { overlap_reads (g, idx) ; return ; }
	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), e = -1 ;
	double r = pick_ratio (g), budget = vh_light ? 8e5 : vh_thorough ? 6e6 : 2.5e6 ;
	long N = pick_N (g, conv, ch, r, budget) ; int kind = (int) rndi (g, 0, 9), usenull = chance (g, 0.15), st_out ; static src14 s, in ;
	long ex = rndi (g, 1, 5000) ; int tries = 0 ;
	vh_cleanup (feed_free, &out) ; vh_cleanup (feed_free, &ref) ; vh_cleanup (feed_free, &mid) ; vh_cleanup (feed_free, &out2) ;
	reads = errs = 0 ; null_user = NULL ;
	if (kind == 9)
	{	/* tokens: ZOH frames carry the number of their input frame, the ratio wanders */
		conv = ZOH ; ch = (int) rndi (g, 1, 5) ; N = rndi (g, 1, 20000) ; r = pick_ratio_range (g, 0.02, 20) ;
		}
	do st_out = (int) rndi (g, BLK_ONE, BLK_EXACT) ; while (N * r > 6000 && (st_out == BLK_ONE || st_out == BLK_TINY || ex < 20) && (ex = rndi (g, 1, 5000)) && tries++ < 100) ;
	float *x = make_signal (g, chance (g, 0.7) ? SIG_NOISE : SIG_MIXED, N, ch) ;
	if (kind == 9) for (long i = 0 ; i < N * ch ; i++) x [i] = (float) (i / ch + 1 + 100000 * (i % ch)) ;
	double peak = peak_of (x, N * ch) ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld kind=%d", conv_name [conv], ch, r, N, kind) ;
	vh_steps (600000) ;
	src_init (&s, g, x, N, ch, conv, r) ; s.strict = kind != 9 && N > 0 ;
	if (usenull) null_user = &s ;
	SRC_STATE *st = src_callback_new (cb14, conv, ch, &e, usenull ? NULL : &s) ;
	if (!st || e) vh_fail ("new-failed", "src_callback_new: %d", e) ;
	if (kind <= 3 && chance (g, 0.3)) s.self = st ;
	long N0 = N ; uint64_t hx = hash_of (x, N0 * ch) ;
	if (kind <= 5)
	{	double perr = chance (g, 0.5) ? 0.02 + 0.3 * rndu (g) : 0 ;
		ref_stream (conv, ch, x, N, r, &ref) ;
		if (kind >= 4)
		{	/* an unfinished stream first, dropped by a reset; the data still pending is taken away before the next read */
			long k = rndi (g, 0, 6) ; while (k-- > 0) { long w = rndi (g, 1, 300) ; if (w * conv_cost (conv, ch, r) > budget) w = 1 ; read14 (st, &s, r, w, NULL) ; }
			if (chance (g, 0.3)) bad_read (g, st, &s, r) ;
			if (src_reset (st)) vh_fail ("reset", "src_reset failed") ;
			if (src_error (st)) vh_fail ("reset-error", "error %d pending after a reset", src_error (st)) ;
			intact (&s) ; drop (&s) ; if (s.buf == BUF_DIRECT) s.buf = BUF_FRESH ; 
			long c0 = s.calls ; s.pos = 0 ; s.done = 0 ;
			if (N > 0 && ((long) (N * r) > 0))
			{	read14 (st, &s, r, 1, &out) ;
				if (s.calls == c0) vh_fail ("reset-old-data", "the first read after a reset did not ask the callback for data") ;
				}
			}
		all_reads (g, st, &s, r, st_out, ex, perr, &out) ;
		cmp_streams (conv, ch, r, &out, &ref, peak, near_tie (r, N) ? 1 : 0, "stream-differs", "src_callback_read and the same stream in one src_process call") ;
		}
	else if (kind <= 7)
	{	/* a chain: the callback of the outer converter reads from an inner callback converter */
		int conv2 = pick_conv (g) ; double r2 = pick_ratio_range (g, 1 / 16.0, 16) ; r = pick_ratio_range (g, 1 / 16.0, 16) ;
		if (N > 8000) N = 8000 ; if (N * ch > 30000) N = 30000 / ch ;
		double cost = N * r2 * (conv_cost (conv2, ch, r2) + r * conv_cost (conv, ch, r)) ; if (cost > budget) N = (long) (N * budget / cost) ;
		static src14 outer ; src_delete (st) ; null_user = NULL ;
		src_init (&in, g, x, N, ch, conv2, r2) ; in.strict = N > 0 ;
		SRC_STATE *is = src_callback_new (cb14, conv2, ch, &e, &in) ; if (!is || e) vh_fail ("new-failed", "src_callback_new: %d", e) ;
		src_init (&outer, g, (const float *) &in, 0, ch, conv, r) ; outer.inner = is ; outer.buf = BUF_FRESH ; if (outer.style == BLK_ONE || outer.style == BLK_ALL) outer.style = BLK_SMALL ;
		st = src_callback_new (cb14, conv, ch, &e, &outer) ; if (!st || e) vh_fail ("new-failed", "src_callback_new: %d", e) ;
		long lim = (long) (N * r * r2) + 40 ;
		for (;;)
		{	long want = vh_block (g, st_out, ex) ; if (want > lim) want = lim ;
			if (read14 (st, &outer, r, want, &out) < want) break ;
			}
		if (in.pos != N) vh_fail ("unused", "the chain ended with %ld of %ld frames asked for", in.pos, N) ;
		ref_stream (conv2, ch, x, N, r2, &mid) ;
		cmp_streams (conv2, ch, r2, &outer.chain, &mid, peak, near_tie (r2, N) ? 1 : 0, "chain-inner", "inner converter of a chain and the same stream alone") ;
		ref_stream (conv, ch, outer.chain.v, outer.chain.n / ch, r, &ref) ;
		cmp_streams (conv, ch, r, &out, &ref, 2 * peak, near_tie (r, outer.chain.n / ch) ? 1 : 0, "chain-outer", "outer converter of a chain and the same stream alone") ;
		src_delete (is) ; fv_free (&outer.chain) ; if (outer.cur) gb_free (outer.cur) ;
		}
	else if (kind == 8)
	{	/* original and clone over the same pending data, each with its own supply afterwards: the switch is in the user data */
		ref_stream (conv, ch, x, N, r, &ref) ;
		if (s.buf == BUF_REUSED) s.buf = BUF_FRESH ;
		long k = rndi (g, 0, 5) ; int done = 0 ;
		while (k-- > 0 && !done) { long w = rndi (g, 1, 300) ; if (w * conv_cost (conv, ch, r) > budget) w = 1 ; done = read14 (st, &s, r, w, &out) < w ; }
		if (!done)
		{	SRC_STATE *c = src_clone (st, &e) ; if (!c || e) vh_fail ("clone", "src_clone failed: %d", e) ;
			src14 keep = s ; fv_add (&out2, out.v, out.n) ;
			float *held = s.cur ;
			s.cur = NULL ;	/* the pending block must live until both are past it */
			all_reads (g, c, &s, r, st_out, ex, 0, &out2) ;
			if (s.buf == BUF_PAGES) drop (&s) ; else if (s.buf == BUF_FRESH && s.cur) gb_free (s.cur) ;
			src_delete (c) ;
			s = keep ; s.cur = held ;
			cmp_streams (conv, ch, r, &out2, &ref, peak, near_tie (r, N) ? 1 : 0, "stream-differs", "stream continued with a clone and in one src_process call") ;
			all_reads (g, st, &s, r, st_out, ex, 0, &out) ;
			}
		cmp_streams (conv, ch, r, &out, &ref, peak, near_tie (r, N) ? 1 : 0, "stream-differs", "src_callback_read and the same stream in one src_process call") ;
		}
	else
	{	double cur = r, minr = r, maxstep ; long prev = 1, lim ; int big = 0 ;
		for (;;)
		{	if (chance (g, 0.5)) { cur = pick_ratio_range (g, 0.02, 20) ; if (chance (g, 0.3)) src_set_ratio (st, cur) ; }
			if (cur < minr) minr = cur ;
			lim = chance (g, 0.5) ? rndi (g, 1, 30) : rndi (g, 1, 1500) ; long o0 = out.n ;
			if (chance (g, 0.1)) bad_read (g, st, &s, cur) ;
			long n = read14 (st, &s, cur, lim, &out) ;
			maxstep = floor (1 / minr) + 2 ;
			for (long k = 0 ; k < n ; k++)
			{	const float *y = out.v + o0 + k * ch ; long id = (long) y [0] ;
				for (int c = 0 ; c < ch ; c++) if (y [c] != (float) (id + 100000 * c)) vh_fail ("torn", "output frame mixes input frames: channel 0 has %g, channel %d has %g", y [0], c, y [c]) ;
				if (id < prev) vh_fail ("order", "input frame %ld appears after frame %ld", id, prev) ;
				if (id > s.pos) vh_fail ("order", "input frame %ld appears, %ld supplied", id, s.pos) ;
				if (id > prev + maxstep) vh_fail ("lost", "input frames %ld..%ld were skipped (the lowest ratio was %g)", prev + 1, id - 1, minr) ;
				if (id > prev + 1) big ++ ;
				prev = id ;
				}
			if (n < lim) break ;
			}
		if (N > 0 && prev + maxstep < N) vh_fail ("lost", "the stream ended with input frame %ld of %ld (lowest ratio %g)", prev, N, minr) ;
		if (s.pos != N) vh_fail ("unused", "the stream ended with %ld of %ld frames asked for", s.pos, N) ;
		vh_stat ("token_jumps", big) ;
		}
	if (hash_of (x, N0 * ch) != hx) vh_fail ("supplied-modified", "the data the callback supplied was modified") ;
	src_delete (st) ; if (s.buf == BUF_PAGES) drop (&s) ; if (s.cur && s.buf != BUF_DIRECT) gb_free (s.cur) ; s.cur = NULL ;
	vh_stat ("reads", reads) ; vh_stat ("error_reads", errs) ; vh_stat ("callback_calls", s.calls) ; vh_stat ("frames_checked", out.n / ch) ;
	if (out.n) vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + kind * 100 + s.style * 1009 + st_out * 7919 + s.buf * 31337 + errs % 16) ;
	if (idx < 20) vh_sample ("%s ch=%d ratio=%.6g N=%ld kind=%d: %ld reads (%ld invalid), %ld callback calls, %ld frames checked", conv_name [conv], ch, r, N, kind, reads, errs, s.calls, out.n / ch) ;
}

#define _GNU_SOURCE
#include "script.h"
float *script_pool ; long script_pool_n = 1 << 18 ;
int script_log_error = 1 ; int *script_track ;
#define LIB(expr) ({ if (script_track) *script_track = 1 ; __auto_type lib_r = (expr) ; if (script_track) *script_track = 0 ; lib_r ; })
#define MAXPOOLX (1 << 16)
void script_init (int wild)
{	script_pool = malloc ((script_pool_n + MAXPOOLX) * sizeof (float)) ;
	for (long i = 0 ; i < script_pool_n + MAXPOOLX ; i++)
	{	float v = noise_at (4711, i) ; long b = (i >> 13) & 15 ;
		if (wild && b == 5) v *= 1e30f ;
		if (wild && b == 9 && i % 61 == 0) v = INFINITY ;
		if (wild && b == 13 && i % 67 == 0) v = NAN ;
		script_pool [i] = i < script_pool_n ? v : script_pool [i - script_pool_n] ;	/* periodic */
		}
}
static void put (blog *l, const void *p, long n)
{	if (l->n + n > l->cap)
	{	l->cap = (l->n + n) * 2 + 1024 ; l->v = realloc (l->v, l->cap) ;
		if (!l->v) { fprintf (stderr, "harness out of memory\n") ; exit (2) ; }
		}
	if (n) memcpy (l->v + l->n, p, n) ; l->n += n ;
}
static void putl (blog *l, long v) { put (l, &v, sizeof v) ; }
static void putf (blog *l, const float *p, long n)
{	for (long i = 0 ; i < n ; i++)
	{	float v = p [i] ; uint32_t q ; memcpy (&q, &v, 4) ;
		if (v != v) q = 0x7fc00000 ;
		put (l, &q, 4) ;
		}
}
void log_free (blog *l) { free (l->v) ; memset (l, 0, sizeof *l) ; }

static long cbf (void *user, float **data)
{	subj *s = *(subj **) user ;
	if (script_track) *script_track = 0 ;
	vh_step () ;
	rng g = { mix64 (s->cseed + 977 * (uint64_t) s->ccount++) } ;
	long n = vh_block (&g, s->cstyle, 37 + (long) (s->cseed % 3000)) ;
	if (n > s->cN - s->cpos) n = s->cN - s->cpos ;
	if (n * s->ch > MAXPOOLX) n = MAXPOOLX / s->ch ;
	if (script_track) *script_track = 1 ;
	if (n <= 0) { if (s->cnull) *data = NULL ; return 0 ; }
	*data = script_pool + (s->off + s->cpos * s->ch) % script_pool_n ;
	s->cpos += n ;
	return n ;
}
void subj_open (subj *s)
{	int e = -5 ;
	s->slot_v = s ; s->slot = &s->slot_v ;
	s->st = s->cb ? src_callback_new (cbf, s->conv, s->ch, &e, s->slot) : src_new (s->conv, s->ch, &e) ;
	if (!s->st || e) vh_fail ("new-failed", "creating a %s converter with %d channels: error %d", conv_name [s->conv], s->ch, e) ;
}
void subj_init (subj *s, rng *g, int conv, int ch, int cb)
{	memset (s, 0, sizeof *s) ;
	s->conv = conv ; s->ch = ch ; s->cb = cb ; s->junk = -1 ;
	s->off = rndi (g, 0, script_pool_n - 1) ;
	s->cseed = rnd (g) >> 1 ; s->cstyle = rndi (g, BLK_ONE, BLK_EXACT) ; s->cN = chance (g, 0.5) ? 1L << 40 : rndi (g, 0, 30000) ; s->cnull = chance (g, 0.3) ;
	subj_open (s) ;
}
void subj_same_data (subj *d, const subj *s)
{	d->off = s->off ; d->pos = s->pos ; d->cpos = s->cpos ; d->cN = s->cN ; d->cseed = s->cseed ; d->ccount = s->ccount ; d->cstyle = s->cstyle ; d->cnull = s->cnull ; }

static double fixr (double r) { return r < 1 / 256.0 ? 1 / 256.0 : r > 256 ? 256 : r ; }
int gen_script (rng *g, int conv, int ch, int cb, int maxops, double budget, int flags, op *ops)
{	int n = 0 ;
	double cur = pick_ratio (g), minr = cur ; int vary = !(flags & SC_CONST) && chance (g, 0.5), ended = 0 ;
	long bl = conv_buflen (conv), lim = MAXPOOLX / ch ;
	int tiny = chance (g, 0.2) ;
	while (n < maxops && budget > 0)
	{	op *o = &ops [n] ; memset (o, 0, sizeof *o) ;
		int k = rndi (g, 0, 19) ;
		if (k == 0 && !(flags & SC_CONST)) { o->what = OP_SETRATIO ; cur = o->r = pick_ratio (g) ; if (cur < minr) minr = cur ; n++ ; continue ; }
		if (k == 1 && !(flags & SC_NORESET) && chance (g, 0.4)) { o->what = OP_RESET ; ended = 0 ; n++ ; continue ; }
		if (k == 2 && !(flags & SC_NOERR)) { o->what = OP_ERRCALL ; o->bad = rndi (g, 0, 5) ; n++ ; continue ; }
		if (k == 3) { o->what = OP_QUERY ; n++ ; continue ; }
		if (vary && chance (g, 0.4)) cur = chance (g, 0.5) ? fixr (cur * (1 + 0.1 * (rndu (g) - 0.5))) : pick_ratio (g) ;
		if (cur < minr) minr = cur ;
		o->r = cur ;
		double cost = conv_cost (conv, ch, minr) ;
		long mo = (long) (budget / 3 / cost) + 1 ;
		switch (tiny ? 0 : rndi (g, 0, 7))
		{	case 0 : o->inf = rndi (g, 0, 3) ; break ;
			case 1 : o->inf = rndi (g, 0, 40) ; break ;
			case 2 : o->inf = bl / 3 + rndi (g, -5, 5) ; break ;
			case 3 : o->inf = rndi (g, 1, 2 * bl) ; break ;
			default : o->inf = rndi (g, 1, 3000) ; break ;
			}
		if (o->inf > lim) o->inf = lim ;
		o->outf = chance (g, 0.15) ? rndi (g, 0, 3) : chance (g, 0.5) ? (long) (o->inf * cur) + rndi (g, 0, 8) : rndi (g, 1, 3000) ;
		if (o->outf > mo) o->outf = mo ;
		if (o->outf * ch > 300000) o->outf = 300000 / ch ;
		if (cb)
		{	o->what = OP_READ ; if (o->outf > 3000 * minr) o->outf = (long) (3000 * minr) ; if (o->outf < 1) o->outf = 1 ; budget -= o->outf * cost + 100 * o->outf / minr ; }
		else
		{	o->what = OP_PROCESS ; o->eoi = chance (g, ended ? 0.85 : 0.06) ; if (ended && chance (g, 0.8)) o->inf = 0 ; o->nul = chance (g, 0.3) ;
			if (o->eoi) ended = 1 ;
			budget -= o->outf * cost + o->inf * ch + 50 ;
			}
		n ++ ;
		}
	return n ;
}
uint64_t script_sig (const op *ops, int n)
{	uint64_t h = 7 ;
	for (int i = 0 ; i < n ; i++) h = h * 1315423911u + ops [i].what * 64 + ops [i].eoi * 32 + (ops [i].inf > 0) * 16 + (ops [i].inf * ops [i].r > ops [i].outf) * 8 + ratio_classi (ops [i].r ? ops [i].r : 1) * 128 ;
	return h ;
}

static float *lay_alloc (subj *s, const float *src, long n, float **base)
{	if (s->junk < 0)
	{	float *p = gb_alloc (n) ; *base = p ;
		if (src && n) memcpy (p, src, n * sizeof (float)) ;
		return p ;
		}
	long a = rndi (&s->lay, 0, 9), b = rndi (&s->lay, 1, 40) ;
	float *p = malloc ((a + n + b) * sizeof (float)) ; *base = p ;
	memset (p, s->junk, (a + n + b) * sizeof (float)) ;
	if (src && n) memcpy (p + a, src, n * sizeof (float)) ;
	return p + a ;
}
static void lay_free (subj *s, float *base) { if (s->junk < 0) gb_free (base) ; else free (base) ; }

void run_ops (subj *s, const op *ops, int from, int to, blog *log)
{	for (int i = from ; i < to ; i++)
	{	const op *o = &ops [i] ;
		*s->slot = s ;
		putl (log, i) ;
		switch (o->what)
		{	case OP_SETRATIO : putl (log, LIB (src_set_ratio (s->st, o->r))) ; break ;
			case OP_RESET : putl (log, LIB (src_reset (s->st))) ; s->pos += 13 ; break ;
			case OP_QUERY : putl (log, src_get_channels (s->st)) ; putl (log, script_log_error ? src_error (s->st) : 0) ; break ;
			case OP_ERRCALL :
				{	float a [4] = { 0, 0, 0, 0 }, b [4] = { 0, 0, 0, 0 } ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
					d.data_in = a ; d.data_out = b ; d.src_ratio = 1.0 ;
					if (s->cb)
					{	if (o->bad < 3) putl (log, src_callback_read (s->st, o->bad ? 1000.0 : 0.0, 4, b)) ;
						else putl (log, src_set_ratio (s->st, -1)) ;
						}
					else switch (o->bad)
					{	case 0 : putl (log, src_process (s->st, NULL)) ; break ;
						case 1 : d.src_ratio = 257 ; putl (log, src_process (s->st, &d)) ; break ;
						case 2 : d.data_in = NULL ; d.input_frames = 1 ; putl (log, src_process (s->st, &d)) ; break ;
						case 3 : d.data_out = NULL ; d.output_frames = 1 ; putl (log, src_process (s->st, &d)) ; break ;
						case 4 : putl (log, src_callback_read (s->st, 1.0, 1, b)) ; break ;
						default : putl (log, src_set_ratio (s->st, 0.001)) ; break ;
						}
					putl (log, script_log_error ? src_error (s->st) : 0) ;
					putf (log, b, 4) ;
					}
				break ;
			case OP_READ :
				{	float *ob, *base ; ob = lay_alloc (s, NULL, o->outf * s->ch, &base) ;
					vh_steps (256 * o->outf + 200000) ;
					long n = LIB (src_callback_read (s->st, o->r, o->outf, ob)) ;
					vh_steps (0) ;
					putl (log, n) ; putl (log, s->cpos) ; putl (log, script_log_error ? src_error (s->st) : 0) ;
					if (n < 0 || n > o->outf) vh_fail ("read-range", "src_callback_read returned %ld for %ld", n, o->outf) ;
					putf (log, ob, n * s->ch) ; log->frames += n ;
					lay_free (s, base) ;
					}
				break ;
			default :
				{	float *ob, *ib = NULL, *bo, *bi = NULL ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
					ob = lay_alloc (s, NULL, o->outf * s->ch, &bo) ;
					if (o->inf > 0 || !o->nul) ib = lay_alloc (s, script_pool + (s->off + s->pos * s->ch) % script_pool_n, o->inf * s->ch, &bi) ;
					d.data_in = ib ; d.data_out = ob ; d.input_frames = o->inf ; d.output_frames = o->outf ; d.end_of_input = o->eoi ; d.src_ratio = o->r ;
					int e = LIB (src_process (s->st, &d)) ;
					putl (log, e) ; putl (log, d.input_frames_used) ; putl (log, d.output_frames_gen) ; putl (log, script_log_error ? src_error (s->st) : 0) ;
					if (e) vh_fail ("process-error", "src_process failed with %d on a valid call (op %d)", e, i) ;
					if (d.output_frames_gen < 0 || d.output_frames_gen > o->outf || d.input_frames_used < 0 || d.input_frames_used > o->inf)
						vh_fail ("range", "src_process reported used %ld of %ld, gen %ld of %ld", d.input_frames_used, o->inf, d.output_frames_gen, o->outf) ;
					putf (log, ob, d.output_frames_gen * s->ch) ; log->frames += d.output_frames_gen ;
					s->pos += d.input_frames_used ;
					if (bi) lay_free (s, bi) ;
					lay_free (s, bo) ;
					}
				break ;
			}
		}
}
void log_same (const blog *a, const blog *b, const char *key, const char *what)
{	long n = a->n < b->n ? a->n : b->n ;
	if (a->n == b->n && memcmp (a->v, b->v, n) == 0) return ;
	long i = 0 ; while (i < n && a->v [i] == b->v [i]) i++ ;
	vh_fail (key, "%s: the logs of results, frame counts and samples differ at byte %ld (lengths %ld and %ld)", what, i, a->n, b->n) ;
}

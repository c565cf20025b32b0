#define _GNU_SOURCE
#include "vh.h"
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

int vh_thorough, vh_light ;
long vh_idx ;
int vh_null_when_empty, vh_check_progress = 1, vh_inf_in ;
static _Thread_local jmp_buf vh_jmp ;
static _Thread_local int vh_in_case ;
static int vh_nviol ;
static _Thread_local long step_left, step_limit ;
static long ev_count ;
static volatile long *prog ;
static char note [512] ;

uint64_t mix64 (uint64_t x)
{	x ^= x >> 30 ; x *= 0xBF58476D1CE4E5B9ull ;
	x ^= x >> 27 ; x *= 0x94D049BB133111EBull ;
	return x ^ (x >> 31) ;
}

__attribute__ ((weak)) void vh_init (void) { }
__attribute__ ((weak)) void vh_fini (void) { }

/* ---- event ring: the last API calls, printed with a violation ---- */
typedef struct { char op ; int eoi, err ; long inf, outf, used, gen ; double ratio ; void *st ; } ev ;
#define NEV 12
static ev ring [NEV] ; static long nev ;
static void ev_add (char op, void *st, long inf, long outf, double ratio, int eoi, int err, long used, long gen)
{	ev *e = &ring [nev++ % NEV] ;
	e->op = op ; e->st = st ; e->inf = inf ; e->outf = outf ; e->ratio = ratio ; e->eoi = eoi ; e->err = err ; e->used = used ; e->gen = gen ;
	ev_count ++ ;
}
long vh_event_count (void) { return ev_count ; }

/* ---- reporting ---- */
static _Thread_local char msgbuf [4096] ;
void vh_fail (const char *key, const char *fmt, ...)
{	va_list ap ; va_start (ap, fmt) ; vsnprintf (msgbuf, sizeof msgbuf, fmt, ap) ; va_end (ap) ;
	for (char *p = msgbuf ; *p ; p++) if (*p == '\n' || *p == '\t') *p = ' ' ;
	printf ("VIOL\t%ld\t%s\t[%s] %s", vh_idx, key, note, msgbuf) ;
	printf (" | last calls:") ;
	long a = nev > NEV ? nev - NEV : 0 ;
	for (long i = a ; i < nev ; i++)
	{	ev *e = &ring [i % NEV] ;
		printf (" %c(in=%ld out=%ld r=%.17g eoi=%d)->%d used=%ld gen=%ld;", e->op, e->inf, e->outf, e->ratio, e->eoi, e->err, e->used, e->gen) ;
		}
	printf ("\n") ; fflush (stdout) ;
	__atomic_add_fetch (&vh_nviol, 1, __ATOMIC_SEQ_CST) ;
	if (vh_in_case) longjmp (vh_jmp, 1) ;
	exit (3) ;
}
int vh_guarded (void (*fn) (void *), void *arg)
{	int bad = 0 ;
	vh_in_case = 1 ; step_limit = 0 ;
	if (setjmp (vh_jmp) == 0) fn (arg) ; else bad = 1 ;
	vh_in_case = 0 ;
	return bad ;
}
static int nsamples ;
void vh_sample (const char *fmt, ...)
{	if (nsamples >= 3) return ;
	nsamples ++ ;
	va_list ap ; va_start (ap, fmt) ; vsnprintf (msgbuf, sizeof msgbuf, fmt, ap) ; va_end (ap) ;
	printf ("SAMPLE\tcase %ld: %s\n", vh_idx, msgbuf) ;
}
void vh_note (const char *fmt, ...)
{	va_list ap ; va_start (ap, fmt) ; vsnprintf (note, sizeof note, fmt, ap) ; va_end (ap) ;
}
#define MAXSTAT 128
static struct { const char *name ; double v ; } stats [MAXSTAT] ; static int nstats ;
void vh_stat (const char *name, double add)
{	for (int i = 0 ; i < nstats ; i++) if (stats [i].name == name || !strcmp (stats [i].name, name)) { stats [i].v += add ; return ; }
	if (nstats < MAXSTAT) { stats [nstats].name = strdup (name) ; stats [nstats++].v = add ; }
}
static uint64_t *sigtab ; static size_t sigcap = 1 << 16, nsig ;
void vh_sig (uint64_t h)
{	if (!sigtab) sigtab = calloc (sigcap, 8) ;
	if (nsig * 2 > sigcap) return ;
	h = mix64 (h) | 1 ;
	size_t i = h & (sigcap - 1) ;
	while (sigtab [i]) { if (sigtab [i] == h) return ; i = (i + 1) & (sigcap - 1) ; }
	sigtab [i] = h ; nsig ++ ;
}
void vh_steps (long limit) { step_left = step_limit = limit ; }
void vh_step (void)
{	if (step_limit && --step_left <= 0)
		vh_fail ("no-progress", "step budget of %ld API calls exhausted: the conversion does not terminate", step_limit) ;
}
#define MAXCLEAN 64
static struct { void (*fn) (void *) ; void *arg ; } cleans [MAXCLEAN] ; static int ncleans ;
void vh_cleanup (void (*fn) (void *), void *arg) { if (ncleans < MAXCLEAN) { cleans [ncleans].fn = fn ; cleans [ncleans++].arg = arg ; } }

/* ---- converters ---- */
const char *conv_name [5] = { "best", "medium", "fastest", "zoh", "linear" } ;
static double conv_c (int conv) { return conv == FASTEST ? 2464 / 128.0 : conv == MEDIUM ? (MEDIUM ? 22438 / 491.0 : 340238 / 2381.0) : 1 ; }
double conv_reach (int conv, double r)
{	if (conv >= ZOH) return 2 ;
	return conv_c (conv) / (r < 1 ? r : 1) + 2 ;
}
long conv_buflen (int conv) { return conv >= ZOH ? 2000 : (long) (3 * (conv_c (conv) * 256 + 1)) ; }
double conv_cost (int conv, int ch, double r)
{	if (conv >= ZOH) return 4 + ch ;
	return 2 * conv_c (conv) / (r < 1 ? r : 1) * (1 + 0.5 * ch) + 10 ;
}
int pick_conv (rng *g)
{	static const int w [] = { FASTEST, FASTEST, FASTEST, MEDIUM, MEDIUM, ZOH, LINEAR, LINEAR } ;
	if (!MEDIUM && chance (g, 0.7)) return MEDIUM ;
	return w [rndi (g, 0, 7)] ;
}
int pick_channels (rng *g, int conv, int maxch)
{	static const int w [] = { 1, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 12, 16, 17, 32, 64, 127, 128 } ;
	int c ;
	if (conv >= ZOH && maxch > 128 && chance (g, 0.03)) return rndi (g, 129, maxch) ;
	do c = w [rndi (g, 0, sizeof w / sizeof w [0] - 1)] ; while (c > maxch) ;
	return c ;
}
long pick_N (rng *g, int conv, int ch, double r, double budget)
{	long n ; long bl = conv_buflen (conv) ; double half = conv_reach (conv, r) ;
	if (!vh_light && chance (g, 0.02))
	{	/* now and then a stream long enough to exceed 2^16 or 2^20 frames */
		budget *= 6 ; n = (long) (50000 * pow (60, rndu (g))) ;
		if (n * (double) ch > 6e6) n = 6000000 / ch ;
		if (n * r * ch > 12e6) n = (long) (12e6 / r / ch) ;
		}
	else switch (rndi (g, 0, 9))
	{	case 0 : n = rndi (g, 0, 6) ; break ;
		case 1 : n = rndi (g, 1, 200) ; break ;
		case 2 : n = (long) half + rndi (g, -6, 6) ; break ;
		case 3 : n = (long) (2 * half) + rndi (g, -6, 6) ; break ;
		case 4 : n = bl * rndi (g, 1, 9) / 3 + rndi (g, -8, 8) ; break ;
		case 5 : n = bl * rndi (g, 1, 3) - (long) half + rndi (g, -8, 8) ; break ;
		case 6 : n = rndi (g, 1, 3000) ; break ;
		case 7 : n = rndi (g, 1, 3 * bl) ; break ;
		default : n = rndi (g, 1, 40000) ; break ;
		}
	double per = r * conv_cost (conv, ch, r) + 3 * ch ;
	double cap = budget / per ;
	if (n > cap) n = (long) (cap * (0.5 + 0.5 * rndu (g))) ;
	return n < 0 ? 0 : n ;
}
/* with such a ratio every position is computed without rounding, so that nothing may differ at sample instants */
int exact_step (double r) { double s = ldexp (1 / r, 20) ; return s == floor (s) ; }
/* the callback may be asked for data on behalf of frame k of a constant ratio stream as long as no more than this was supplied */
long needed_at_most (int conv, double r, long k)
{	double p = k / r ;
	if (conv >= ZOH) return (long) floor (exact_step (r) ? k * (1 / r) : p + 1e-6 * (1 + r) + 1e-11 * p) ;
	return (long) (p + conv_reach (conv, r) + 4 + 1e-9 * p) ;
}
int near_tie (double r, long N)
{	if (exact_step (r)) return 0 ; double e = N * r ; return fabs (e - floor (e + 0.5)) < 1e-6 * (1 + r) ; }
void cmp_streams (int conv, int ch, double r, const fvec *a, const fvec *b, double peak, long slack, const char *key, const char *what)
{	long na = a->n / ch, nb = b->n / ch, n = na < nb ? na : nb ;
	double tol = conv == ZOH ? 0 : 2e-6 * peak ;
	for (long k = 0 ; k < n ; k++)
		for (int c = 0 ; c < ch ; c++)
		{	float x = a->v [k * ch + c], y = b->v [k * ch + c] ;
			if (x == y || fabs ((double) x - y) <= tol || (isnan (x) && isnan (y))) continue ;
			if (conv == ZOH && !exact_step (r))
			{	double p = k / r ;
				if (fabs (p - floor (p + 0.5)) < 1e-6) continue ;
				}
			vh_fail (key, "%s: output frame %ld of %ld channel %d differs: %.9g and %.9g (peak %.3g)", what, k, n, c, x, y, peak) ;
			}
	if (labs (na - nb) > slack) vh_fail (key, "%s: total output %ld and %ld frames", what, na, nb) ;
}
static double clampr (double r, double lo, double hi) { return r < lo ? lo : r > hi ? hi : r ; }
double pick_ratio (rng *g)
{	switch (rndi (g, 0, 15))
	{	case 0 : return 1.0 ;
		case 1 : return ldexp (1.0, rndi (g, -8, 8)) ;
		case 2 : return rndi (g, 1, 256) ;
		case 3 : return 1.0 / rndi (g, 1, 256) ;
		case 4 : case 5 : { double r = (double) rndi (g, 1, 300) / rndi (g, 1, 300) ; return clampr (r, 1 / 256.0, 256) ; }
		case 6 : { static const double sr [] = { 8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000 } ;
			return sr [rndi (g, 0, 9)] / sr [rndi (g, 0, 9)] ; }
		case 7 : { double e = pow (10, -rndi (g, 1, 12)) * (chance (g, 0.5) ? 1 : -1) ; return 1 + e ; }
		case 8 : return 256.0 ;
		case 9 : return 1 / 256.0 ;
		case 10 : return clampr (256.0 - rndu (g) * pow (10, -rndi (g, 0, 10)), 1 / 256.0, 256) ;
		case 11 : return 1 / clampr (256.0 - rndu (g) * pow (10, -rndi (g, 0, 10)) - 1e-10, 1, 255.9999999999) ;
		case 12 : return exp ((rndu (g) * 2 - 1) * log (3.0)) ;
		case 13 : return exp ((rndu (g) * 2 - 1) * log (1.2)) ;
		default : return exp ((rndu (g) * 2 - 1) * log (255.9)) ;
		}
}
double pick_ratio_range (rng *g, double lo, double hi)
{	for (int i = 0 ; i < 200 ; i++) { double r = pick_ratio (g) ; if (r >= lo && r <= hi) return r ; }
	return clampr (1.0, lo, hi) ;
}
int ratio_classi (double r)
{	if (r == 1) return 0 ; if (r == 256) return 1 ; if (r == 1 / 256.0) return 2 ;
	if (r > 1 && r == floor (r)) return 3 ; if (r < 1 && 1 / r == floor (1 / r)) return 4 ;
	if (r > 64) return 5 ; if (r > 4) return 6 ; if (r > 1) return 7 ;
	if (r < 1 / 64.0) return 8 ; if (r < 0.25) return 9 ; return 10 ;
}
const char *ratio_class (double r)
{	static const char *n [] = { "1", "256", "1/256", "int", "1/int", ">64", ">4", ">1", "<1/64", "<1/4", "<1" } ;
	return n [ratio_classi (r)] ;
}

/* ---- guarded buffers ---- */
#define GUARD 16
typedef struct gb { struct gb *next, *prev ; long n ; uint32_t magic ; uint32_t pad ; } gb ;
static gb gbhead = { &gbhead, &gbhead, 0, 0, 0 } ;
#if defined(VH_ASAN) || defined(VH_MSAN)
# define GB_EXACT 1
#endif
#ifdef GB_EXACT
/* the header lives apart so that the sanitizer's red zones touch the data on both sides */
typedef struct { float *p ; long n ; } gbe ;
static gbe *gbt ; static long gbn, gbcap ;
float *gb_alloc (long n)
{	float *p = malloc (n * sizeof (float)) ;
	if (!p) { fprintf (stderr, "harness out of memory\n") ; exit (2) ; }
	uint32_t *q = (uint32_t *) p ;
#ifndef VH_MSAN
	for (long i = 0 ; i < n ; i++) q [i] = PATTERN ;
#else
	(void) q ;
#endif
	if (gbn == gbcap) { gbcap = gbcap ? gbcap * 2 : 64 ; gbt = realloc (gbt, gbcap * sizeof (gbe)) ; }
	gbt [gbn].p = p ; gbt [gbn++].n = n ;
	return p ;
}
static long gb_find (const float *p) { for (long i = gbn - 1 ; i >= 0 ; i--) if (gbt [i].p == p) return i ; return -1 ; }
long gb_len (const float *p) { long i = gb_find (p) ; return i < 0 ? -1 : gbt [i].n ; }
void gb_check (const float *p, const char *what) { (void) p ; (void) what ; }
void gb_free (float *p) { if (!p) return ; long i = gb_find (p) ; if (i < 0) abort () ; gbt [i] = gbt [--gbn] ; free (p) ; }
void gb_freeall (void) { while (gbn) free (gbt [--gbn].p) ; }
#else
float *gb_alloc (long n)
{	gb *b = malloc (sizeof (gb) + (n + 2 * GUARD) * sizeof (float)) ;
	if (!b) { fprintf (stderr, "harness out of memory\n") ; exit (2) ; }
	b->n = n ; b->magic = 0x6b5a4938 ;
	b->next = gbhead.next ; b->prev = &gbhead ; b->next->prev = b ; gbhead.next = b ;
	uint32_t *q = (uint32_t *) (b + 1) ;
	for (long i = 0 ; i < GUARD ; i++) q [i] = 0xdeadc0deu ;
	for (long i = 0 ; i < n ; i++) q [GUARD + i] = PATTERN ;
	for (long i = 0 ; i < GUARD ; i++) q [GUARD + n + i] = 0xdeadc0deu ;
	return (float *) (q + GUARD) ;
}
static gb *gb_of (const float *p) { return (gb *) ((char *) p - GUARD * sizeof (float) - sizeof (gb)) ; }
long gb_len (const float *p) { return gb_of (p)->n ; }
void gb_check (const float *p, const char *what)
{	gb *b = gb_of (p) ; uint32_t *q = (uint32_t *) (b + 1) ;
	if (b->magic != 0x6b5a4938) vh_fail ("guard", "header before the %s buffer overwritten", what) ;
	for (long i = 0 ; i < GUARD ; i++)
	{	if (q [i] != 0xdeadc0deu) vh_fail ("guard", "memory before the %s buffer overwritten (at float %ld)", what, i - GUARD) ;
		if (q [GUARD + b->n + i] != 0xdeadc0deu) vh_fail ("guard", "memory after the %s buffer of %ld floats overwritten (at float %ld)", what, b->n, b->n + i) ;
		}
}
static void gb_unlink (gb *b) { b->next->prev = b->prev ; b->prev->next = b->next ; }
void gb_free (float *p) { if (!p) return ; gb *b = gb_of (p) ; gb_unlink (b) ; free (b) ; }
void gb_freeall (void) { while (gbhead.next != &gbhead) { gb *b = gbhead.next ; gb_unlink (b) ; free (b) ; } }
#endif

void fv_add (fvec *f, const float *p, long n)
{	if (f->n + n > f->cap)
	{	f->cap = (f->n + n) * 2 + 256 ;
		f->v = realloc (f->v, f->cap * sizeof (float)) ;
		if (!f->v) { fprintf (stderr, "harness out of memory\n") ; exit (2) ; }
		}
	if (n > 0) memcpy (f->v + f->n, p, n * sizeof (float)) ;
	f->n += n ;
}
void fv_free (fvec *f) { free (f->v) ; f->v = NULL ; f->n = f->cap = 0 ; }

/* ---- signals ---- */
float noise_at (uint64_t seed, long i) { return (float) ((int32_t) (mix64 (seed + 0x9E3779B97F4A7C15ull * (uint64_t) (i + 1)) >> 32) / 2147483648.0) ; }
float *make_signal (rng *g, int kind, long frames, int ch)
{	float *x = gb_alloc (frames * ch) ;
	uint64_t s = rnd (g) ;
	for (int c = 0 ; c < ch ; c++)
	{	int k = kind == SIG_MIXED ? (int) rndi (g, 0, SIG_ZERO) : kind ;
		double amp = 0.1 + 0.9 * rndu (g), f = 0.5 * pow (rndu (g), 2), ph = rndu (g) * 6.283 ;
		long per = rndi (g, 2, 400), step = frames > 0 ? rndi (g, 0, frames) : 0 ;
		for (long i = 0 ; i < frames ; i++)
		{	double v = 0 ;
			switch (k)
			{	case SIG_NOISE : v = amp * noise_at (s + c, i) ; break ;
				case SIG_DC : v = amp ; break ;
				case SIG_SINE : v = amp * sin (6.283185307179586 * f * i + ph) ; break ;
				case SIG_IMPULSES : v = i % per == 0 ? amp : 0 ; break ;
				case SIG_RAMP : v = amp * (i + 1) / (frames + 1.0) ; break ;
				case SIG_STEP : v = i < step ? -amp : amp ; break ;
				case SIG_TINY : v = 1e-38 * amp * noise_at (s + c, i) ; break ;
				case SIG_HUGE : v = 1e30 * amp * noise_at (s + c, i) ; break ;
				default : v = 0 ;
				}
			x [i * ch + c] = (float) v ;
			}
		}
	return x ;
}
float peak_of (const float *x, long n) { float p = 0 ; for (long i = 0 ; i < n ; i++) if (fabsf (x [i]) > p) p = fabsf (x [i]) ; return p ; }

/* ---- read-only copies: the end of the data is the end of a page nothing can write to, with no memory behind it ---- */
#define ROP 4096
float *ro_copy (const float *src, long n)
{	size_t bytes = n * sizeof (float), len = (bytes + ROP - 1) / ROP * ROP ;
	char *b = mmap (NULL, len + 2 * ROP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) ;
	if (b == MAP_FAILED) { fprintf (stderr, "harness out of memory\n") ; exit (2) ; }
	float *p = (float *) (b + ROP + len - bytes) ;
	if (bytes) memcpy (p, src, bytes) ;
	mprotect (b, ROP, PROT_NONE) ; mprotect (b + ROP, len, PROT_READ) ; mprotect (b + ROP + len, ROP, PROT_NONE) ;
	return p ;
}
void ro_free (float *p, long n)
{	size_t bytes = n * sizeof (float), len = (bytes + ROP - 1) / ROP * ROP ;
	munmap ((char *) p + bytes - len - ROP, len + 2 * ROP) ;
}

/* ---- monitored calls ---- */
SRC_STATE *vh_new (int conv, int ch)
{	int e = 12345 ;
	SRC_STATE *s = src_new (conv, ch, &e) ;
	if (!s || e != 0) vh_fail ("new-failed", "src_new (%s, %d) gave %p error %d", conv_name [conv], ch, (void *) s, e) ;
	return s ;
}
void vh_delete (SRC_STATE *st) { if (src_delete (st) != NULL) vh_fail ("delete-nonnull", "src_delete returned non-NULL") ; }

static cres process_or_simple (SRC_STATE *st, int conv, int ch, const float *in, long inf, long outf, double ratio, int eoi, fvec *out)
{	cres r ; SRC_DATA d, d0 ; int ro = 0 ;
	float *ib = NULL, *ob = gb_alloc (outf * ch) ;
	vh_step () ;
	if (inf > 0 || !vh_null_when_empty)
	{	static __thread unsigned turn ;
		ro = inf > 0 && turn ++ % 8 == 5 ;
		ib = ro ? ro_copy (in, inf * ch) : gb_alloc (inf * ch) ;
		if (inf > 0 && !ro) memcpy (ib, in, inf * ch * sizeof (float)) ;
		}
	memset (&d, 0, sizeof d) ;
	d.data_in = ib ; d.data_out = ob ; d.input_frames = inf ; d.output_frames = outf ;
	d.input_frames_used = -77777 ; d.output_frames_gen = -88888 ; d.end_of_input = eoi ; d.src_ratio = ratio ;
	d0 = d ;
	r.err = st ? src_process (st, &d) : src_simple (&d, conv, ch) ;
	r.used = d.input_frames_used ; r.gen = d.output_frames_gen ;
	ev_add (st ? 'P' : 'S', st, inf, outf, ratio, eoi, r.err, r.used, r.gen) ;
	if (r.err != 0)
	{	const char *e = src_strerror (r.err) ;
		vh_fail ("process-error", "src_process failed with error %d (%s) on a valid call", r.err, e ? e : "NULL") ;
		}
	if (d.data_in != d0.data_in || d.data_out != d0.data_out || d.input_frames != inf || d.output_frames != outf || (st && d.end_of_input != eoi) || d.src_ratio != ratio)
		vh_fail ("field-changed", "src_process changed a caller field of SRC_DATA") ;
	if (r.used < 0 || r.used > inf) vh_fail ("used-range", "input_frames_used %ld not in 0..%ld", r.used, inf) ;
	if (r.gen < 0 || r.gen > outf) vh_fail ("gen-range", "output_frames_gen %ld not in 0..%ld", r.gen, outf) ;
	if (ib && inf > 0 && memcmp (ib, in, inf * ch * sizeof (float)) != 0) vh_fail ("input-modified", "src_process modified its input buffer") ;
	if (ib && !ro) gb_check (ib, "input") ;
	gb_check (ob, "output") ;
#ifdef VH_MSAN
	if (__msan_test_shadow (ob, r.gen * ch * sizeof (float)) >= 0)
		vh_fail ("uninit-output", "output float %ld computed from uninitialised memory", (long) (__msan_test_shadow (ob, r.gen * ch * sizeof (float)) / 4)) ;
	for (long i = r.gen * ch ; i < outf * ch ; i++)
		if (__msan_test_shadow (ob + i, 4) < 0) vh_fail ("wrote-beyond-gen", "output float %ld written although only %ld frames of %d channels were reported", i, r.gen, ch) ;
#else
	{	const uint32_t *q = (const uint32_t *) ob ;
		for (long i = r.gen * ch ; i < outf * ch ; i++)
			if (q [i] != PATTERN) vh_fail ("wrote-beyond-gen", "output float %ld written although only %ld frames of %d channels were reported", i, r.gen, ch) ;
		if (!vh_inf_in)
			for (long i = 0 ; i < r.gen * ch ; i++)
				if (q [i] == PATTERN) vh_fail ("not-written", "output float %ld not written although %ld frames of %d channels were reported", i, r.gen, ch) ;
		}
#endif
	if (vh_check_progress && r.used != inf && r.gen != outf)
		vh_fail ("stall", "src_process neither consumed all input (%ld of %ld) nor filled the output (%ld of %ld)", r.used, inf, r.gen, outf) ;
	if (out) fv_add (out, ob, r.gen * ch) ;
	if (ro) ro_free (ib, inf * ch) ; else gb_free (ib) ;
	gb_free (ob) ;
	return r ;
}

/* ---- schedules ---- */
long vh_block (rng *g, int style, long exact)
{	switch (style)
	{	case BLK_ONE : return 1 ;
		case BLK_TINY : return rndi (g, 1, 8) ;
		case BLK_SMALL : return rndi (g, 1, 1000) ;
		case BLK_BIG : return chance (g, 0.1) ? rndi (g, 40000, 600000) : rndi (g, 1, 40000) ;
		case BLK_MIX :
			switch (rndi (g, 0, 4))
			{	case 0 : return 1 ;
				case 1 : return rndi (g, 1, 16) ;
				case 2 : return rndi (g, 1, 300) ;
				case 3 : return rndi (g, 1, 5000) ;
				default : return rndi (g, 1, 20000) ;
				}
		case BLK_EXACT : return exact > 0 ? exact : 1 ;
		default : return 1L << 60 ;
		}
}
static const double blk_mean [BLK_STYLES] = { 1e18, 1, 4.5, 500, 20000, 2500, 100 } ;
static const char *blk_name [BLK_STYLES] = { "all", "1", "1-8", "1-1000", "1-40000", "mixed", "exact" } ;
static const char *eoi_name [EOI_STYLES] = { "with-last", "separate", "separate-NULL" } ;
void pick_sched (rng *g, sched *s, long N, double r)
{	s->exact = rndi (g, 1, 6000) ;
	double maxcalls = vh_light ? 1500 : 6000 ;
	do s->in_style = rndi (g, 0, BLK_STYLES - 1) ;
	while (N / (s->in_style == BLK_EXACT ? s->exact : blk_mean [s->in_style]) > maxcalls) ;
	do s->out_style = rndi (g, 0, BLK_STYLES - 1) ;
	while (N * r / (s->out_style == BLK_EXACT ? s->exact : blk_mean [s->out_style]) > maxcalls) ;
	s->eoi_style = rndi (g, 0, EOI_STYLES - 1) ;
	s->zero_p = chance (g, 0.4) ? 0.2 : 0 ;
	s->g.s = rnd (g) ;
}
const char *sched_str (const sched *s)
{	static char b [4][96] ; static int k ; k = (k + 1) & 3 ;
	snprintf (b [k], sizeof b [k], "in-blocks=%s out-blocks=%s exact=%ld eoi=%s zero-calls=%g", blk_name [s->in_style], blk_name [s->out_style], s->exact, eoi_name [s->eoi_style], s->zero_p) ;
	return b [k] ;
}
static long clampl (long v, long hi) { return v < hi ? v : hi ; }

static long stream_x (SRC_STATE *st, int ch, const float *x, long N, double r, sched *s, fvec *out, long *calls, int finish)
{	long pos = 0, tot = 0, nc = 0, ample = (long) (N * r) + 16 ;
	int save = vh_null_when_empty ;
	double spent_zero = 0, room = 0 ;
	vh_null_when_empty = s->eoi_style == EOI_NULL ;
	for (;;)
	{	long inf = clampl (vh_block (&s->g, s->in_style, s->exact), N - pos) ;
		long outf = vh_block (&s->g, s->out_style, s->exact) ;
		int zero = 0 ;
		if (outf > ample) outf = ample > 4000000 ? 4000000 : ample ;
		if ((room += (double) outf * ch) > 5e8) outf = clampl (outf, (long) (inf * r) + 1000) ;		/* Writing and checking the room is what takes time. */
		if (s->zero_p > 0 && spent_zero < 500 && chance (&s->g, s->zero_p))
		{	zero = 1 ; spent_zero ++ ;
			int k = (int) rndi (&s->g, 0, 2) ; if (k != 0) inf = 0 ; if (k != 1) outf = 0 ;
			}
		int last = pos + inf == N ;
		int eoi = finish && last && (s->eoi_style == EOI_WITH_LAST || inf == 0) ;
		cres c = vh_process (st, ch, x + pos * ch, inf, outf, r, eoi, out) ;
		nc ++ ;
		pos += c.used ; tot += c.gen ;
		if (!zero && pos == N && c.used == 0 && c.gen == 0 && inf == 0 && (eoi || !finish)) break ;
		}
	vh_null_when_empty = save ;
	if (calls) *calls += nc ;
	return tot ;
}
long vh_stream (SRC_STATE *st, int ch, const float *x, long N, double r, sched *s, fvec *out, long *calls)
{	return stream_x (st, ch, x, N, r, s, out, calls, 1) ; }
long vh_feed (SRC_STATE *st, int ch, const float *x, long N, double r, sched *s, fvec *out)
{	return stream_x (st, ch, x, N, r, s, out, NULL, 0) ; }

void ref_stream (int conv, int ch, const float *x, long N, double r, fvec *out)
{	SRC_STATE *st = vh_new (conv, ch) ;
	sched s ; memset (&s, 0, sizeof s) ; s.in_style = s.out_style = BLK_ALL ; s.eoi_style = EOI_WITH_LAST ;
	vh_stream (st, ch, x, N, r, &s, out, NULL) ;
	vh_delete (st) ;
}
static cres process_or_simple (SRC_STATE *st, int conv, int ch, const float *in, long inf, long outf, double ratio, int eoi, fvec *out) ;
cres vh_process (SRC_STATE *st, int ch, const float *in, long inf, long outf, double ratio, int eoi, fvec *out)
{	return process_or_simple (st, 0, ch, in, inf, outf, ratio, eoi, out) ; }
cres vh_simple (int conv, int ch, const float *in, long inf, long outf, double ratio, int eoi, fvec *out)
{	return process_or_simple (NULL, conv, ch, in, inf, outf, ratio, eoi, out) ; }

/* ---- callback ---- */
void cbsrc_init (cbsrc *c, rng *g, const float *x, long N, int ch, int style)
{	memset (c, 0, sizeof *c) ;
	c->x = x ; c->N = N ; c->ch = ch ; c->style = style ; c->exact = rndi (g, 1, 6000) ; c->g.s = rnd (g) ; c->null_at_end = chance (g, 0.3) ;
}
void cbsrc_done (cbsrc *c) { if (c->cur) gb_free (c->cur) ; c->cur = NULL ; }
long vh_cb (void *p, float **data)
{	cbsrc *c = p ;
	vh_step () ;
	c->calls ++ ; c->asked_at = c->pos ;
	long n = clampl (vh_block (&c->g, c->style, c->exact), c->N - c->pos) ;
	/* the previous buffer is gone from here on: freed, so the sanitizer sees any later use; without one it is overwritten */
	if (c->cur)
	{	if (memcmp (c->cur, c->x + (c->pos - c->cur_n) * c->ch, c->cur_n * c->ch * sizeof (float)))
			vh_fail ("supplied-modified", "the block of %ld frames the callback supplied was modified", c->cur_n) ;
#ifndef GB_EXACT
		for (long i = 0 ; i < c->cur_n * c->ch ; i++) c->cur [i] = 12345.0f ;
#endif
		gb_free (c->cur) ; c->cur = NULL ;
		}
	if (c->pause_p > 0 && n > 0 && chance (&c->g, c->pause_p)) { c->pauses ++ ; return chance (&c->g, c->neg_p) ? -rndi (&c->g, 1, 1000) : 0 ; }
	if (n == 0)
	{	c->ended ++ ;
		if (c->null_at_end) *data = NULL ;
		return 0 ;
		}
	c->cur = gb_alloc (n * c->ch) ; c->cur_n = n ;
	memcpy (c->cur, c->x + c->pos * c->ch, n * c->ch * sizeof (float)) ;
	c->pos += n ; c->given += n ;
	*data = c->cur ;
	return n ;
}
long vh_read (SRC_STATE *st, int ch, double r, long frames, fvec *out)
{	float *ob = gb_alloc (frames * ch) ;
	vh_step () ;
	long n = src_callback_read (st, r, frames, ob) ;
	ev_add ('R', st, 0, frames, r, 0, src_error (st), 0, n) ;
	if (n < 0 || n > frames) vh_fail ("read-range", "src_callback_read returned %ld for %ld frames", n, frames) ;
	gb_check (ob, "read output") ;
#ifdef VH_MSAN
	if (__msan_test_shadow (ob, n * ch * sizeof (float)) >= 0) vh_fail ("uninit-output", "callback read output computed from uninitialised memory") ;
#else
	const uint32_t *q = (const uint32_t *) ob ;
	for (long i = n * ch ; i < frames * ch ; i++)
		if (q [i] != PATTERN) vh_fail ("wrote-beyond-gen", "read output float %ld written although %ld frames were returned", i, n) ;
	if (!vh_inf_in)
		for (long i = 0 ; i < n * ch ; i++)
			if (q [i] == PATTERN) vh_fail ("not-written", "read output float %ld not written although %ld frames were returned", i, n) ;
#endif
	if (out) fv_add (out, ob, n * ch) ;
	gb_free (ob) ;
	return n ;
}

__attribute__ ((noinline)) void stack_fill (int byte)
{	volatile char b [65536] ;
	memset ((void *) b, byte, sizeof b) ;
	__asm__ volatile ("" : : "r" (b) : "memory") ;
}

/* ---- edge coverage of the library (sanitizer-coverage builds) ---- */
static uint8_t *cov_a, *cov_b ;
void __sanitizer_cov_8bit_counters_init (char *start, char *stop) ;
#define MAXMOD 32
static struct { uint8_t *a, *b ; } mods [MAXMOD] ; static int nmods ;
__attribute__ ((no_sanitize ("all")))
void __sanitizer_cov_8bit_counters_init (char *start, char *stop)
{	for (int i = 0 ; i < nmods ; i++) if (mods [i].a == (uint8_t *) start) return ;
	if (nmods < MAXMOD) { mods [nmods].a = (uint8_t *) start ; mods [nmods++].b = (uint8_t *) stop ; }
}
void __sanitizer_cov_pcs_init (const uintptr_t *a, const uintptr_t *b) ;
void __sanitizer_cov_pcs_init (const uintptr_t *a, const uintptr_t *b) { (void) a ; (void) b ; }
static void cov_dump (void)
{	if (!nmods) return ;
	printf ("COV\t") ;
	for (int m = 0 ; m < nmods ; m++)
		for (uint8_t *p = mods [m].a ; p < mods [m].b ; p++) putchar (*p ? '1' : '0') ;
	printf ("\n") ;
	(void) cov_a ; (void) cov_b ;
}

/* ---- main ---- */
static double cpu_limit = 60 ;
void __attribute__ ((weak)) vh_outside (void) { }
static void on_timer (int sig)
{	(void) sig ; vh_outside () ;
	char b [160] ;
	int n = snprintf (b, sizeof b, "HANG\t%ld\n", vh_idx) ;
	if (write (1, b, n) < 0) _exit (96) ;
	_exit (97) ;
}
int main (int argc, char **argv)
{	uint64_t seed = 1 ; long from = 0, to = -1, step = 1 ; const char *progf = NULL ; int list = 0 ;
	setvbuf (stdout, NULL, _IOFBF, 1 << 16) ;
	for (int i = 1 ; i < argc ; i++)
	{	if (!strcmp (argv [i], "--seed")) seed = strtoull (argv [++i], 0, 0) ;
		else if (!strcmp (argv [i], "--from")) from = atol (argv [++i]) ;
		else if (!strcmp (argv [i], "--to")) to = atol (argv [++i]) ;
		else if (!strcmp (argv [i], "--step")) step = atol (argv [++i]) ;
		else if (!strcmp (argv [i], "--prog")) progf = argv [++i] ;
		else if (!strcmp (argv [i], "--thorough")) vh_thorough = 1 ;
		else if (!strcmp (argv [i], "--light")) vh_light = 1 ;
		else if (!strcmp (argv [i], "--cpu")) cpu_limit = atof (argv [++i]) ;
		else if (!strcmp (argv [i], "--count")) list = 1 ;
		else { fprintf (stderr, "bad argument %s\n", argv [i]) ; return 2 ; }
		}
	if (list) { printf ("%ld\n", vh_ncases (vh_thorough)) ; return 0 ; }
	if (to < 0) to = vh_ncases (vh_thorough) ;
	if (progf)
	{	int fd = open (progf, O_RDWR | O_CREAT, 0644) ;
		if (fd < 0 || ftruncate (fd, 64)) { perror (progf) ; return 2 ; }
		prog = mmap (0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0) ;
		if (prog == MAP_FAILED) { perror ("mmap") ; return 2 ; }
		}
	uint64_t ph = 0 ; for (const char *p = vh_prop ; *p ; p++) ph = ph * 131 + (uint8_t) *p ;
	signal (SIGPROF, on_timer) ;
	vh_init () ;
	long done = 0 ;
	for (long i = from ; i < to && vh_nviol < 3 ; i += step)
	{	rng g = { mix64 (mix64 (seed) + mix64 (ph) * 3 + (uint64_t) i * 0x9E3779B97F4A7C15ull) } ;
		vh_idx = i ; if (prog) { prog [0] = i ; prog [1] = 1 ; }
		note [0] = 0 ; nev = 0 ; step_limit = 0 ; vh_null_when_empty = 0 ; vh_check_progress = 1 ; vh_inf_in = 0 ;
		struct itimerval it ; memset (&it, 0, sizeof it) ;
		it.it_value.tv_sec = (long) cpu_limit ; setitimer (ITIMER_PROF, &it, NULL) ;
		vh_in_case = 1 ;
		if (setjmp (vh_jmp) == 0) vh_case (&g, i) ;
		vh_in_case = 0 ;
		while (ncleans) { ncleans -- ; cleans [ncleans].fn (cleans [ncleans].arg) ; }
		gb_freeall () ;
		done ++ ;
		}
	struct itimerval it ; memset (&it, 0, sizeof it) ; setitimer (ITIMER_PROF, &it, NULL) ;
	vh_fini () ;
	if (prog) prog [1] = 2 ;
	printf ("STAT\tcases\t%ld\nSTAT\tapi_calls\t%ld\n", done, ev_count) ;
	for (int i = 0 ; i < nstats ; i++) printf ("STAT\t%s\t%.17g\n", stats [i].name, stats [i].v) ;
	if (sigtab) for (size_t i = 0 ; i < sigcap ; i++) if (sigtab [i]) printf ("SIG\t%llx\n", (unsigned long long) sigtab [i]) ;
	cov_dump () ;
	printf ("DONE\n") ;
	return 0 ;
}

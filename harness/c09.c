/* C09: enumeration of allocation failures and accounting of every allocation of the library (link-time wrappers). */
#include "script.h"
const char *vh_prop = "C09" ;
#define NCH 20
static const int chs [NCH] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 64, 65, 100, 127, 128 } ;
enum { E_NEW, E_NEW_NOERR, E_CBNEW, E_CLONE_FRESH, E_CLONE_MID, E_CLONE_ENDED, E_CLONE_CB, E_SIMPLE, E_KINDS } ;
#define NENUM (4 * NCH * E_KINDS)
long vh_ncases (int t) { return NENUM + (t ? 20000 : 4000) ; }
void vh_init (void) { script_init (0) ; }

/* ---- allocation tracking ---- */
#define MAXLIVE 4096
static struct { void *p ; size_t n ; } live [MAXLIVE] ; static int nlive ; static size_t live_bytes ;
static int track, lib_depth ; static long nalloc, fail_at = -1 ; static int fail_all ; static long nfailed, total_allocs ;
static int bad_free ; static const char *bad_free_what = "" ;
void *__real_malloc (size_t) ; void *__real_calloc (size_t, size_t) ; void *__real_realloc (void *, size_t) ; void __real_free (void *) ;
void *__real_aligned_alloc (size_t, size_t) ; int __real_posix_memalign (void **, size_t, size_t) ; char *__real_strdup (const char *) ;
static int should_fail (void)
{	long k = nalloc ++ ; total_allocs ++ ;
	if (fail_at >= 0 && (k == fail_at || (fail_all && k > fail_at))) { nfailed ++ ; return 1 ; }
	return 0 ;
}
static void *note_alloc (void *p, size_t n)
{	if (p && nlive < MAXLIVE) { live [nlive].p = p ; live [nlive++].n = n ; live_bytes += n ; }
	return p ;
}
static int find_live (void *p) { for (int i = nlive - 1 ; i >= 0 ; i--) if (live [i].p == p) return i ; return -1 ; }
static void drop (int i) { live_bytes -= live [i].n ; live [i] = live [--nlive] ; }
void *__wrap_malloc (size_t n) { if (!track) return __real_malloc (n) ; if (should_fail ()) return NULL ; return note_alloc (__real_malloc (n), n) ; }
void *__wrap_calloc (size_t a, size_t b) { if (!track) return __real_calloc (a, b) ; if (should_fail ()) return NULL ; return note_alloc (__real_calloc (a, b), a * b) ; }
void *__wrap_aligned_alloc (size_t a, size_t n) { if (!track) return __real_aligned_alloc (a, n) ; if (should_fail ()) return NULL ; return note_alloc (__real_aligned_alloc (a, n), n) ; }
int __wrap_posix_memalign (void **p, size_t a, size_t n)
{	if (!track) return __real_posix_memalign (p, a, n) ;
	if (should_fail ()) return 12 ;
	int e = __real_posix_memalign (p, a, n) ; if (!e) note_alloc (*p, n) ; return e ;
}
char *__wrap_strdup (const char *s) { if (!track) return __real_strdup (s) ; if (should_fail ()) return NULL ; return note_alloc (__real_strdup (s), strlen (s) + 1) ; }
void *__wrap_realloc (void *p, size_t n)
{	if (!track) return __real_realloc (p, n) ;
	if (should_fail ()) return NULL ;
	int i = p ? find_live (p) : -1 ;
	if (p && i < 0) { bad_free = 1 ; bad_free_what = "realloc" ; return NULL ; }
	void *q = __real_realloc (p, n) ; if (q) { if (i >= 0) drop (i) ; note_alloc (q, n) ; } return q ;
}
void __wrap_free (void *p)
{	if (!track || !p) { __real_free (p) ; return ; }
	int i = find_live (p) ;
	if (i < 0) { bad_free = 1 ; bad_free_what = "free" ; return ; }	/* not ours (any more): reported, not executed */
	drop (i) ; __real_free (p) ;
}
static void begin (void) { track = 1 ; nalloc = 0 ; bad_free = 0 ; }
static void end (const char *call)
{	track = 0 ;
	if (bad_free) vh_fail ("bad-free", "%s: %s of a block that is not allocated", call, bad_free_what) ;
}
static void clean (void *a) { (void) a ; track = 0 ; fail_at = -1 ; fail_all = 0 ; while (nlive) { __real_free (live [--nlive].p) ; } live_bytes = 0 ; }

static long cb0 (void *u, float **d) { (void) u ; (void) d ; return 0 ; }
static SRC_STATE *do_delete (SRC_STATE *s) { begin () ; SRC_STATE *r = src_delete (s) ; end ("src_delete") ; return r ; }

static float in [64 * 128], out [64 * 128] ;
static void enumerate (rng *g, int conv, int ch, int entry)
{	subj a, t ; int have = 0, e ; op ops [40] ; int n = 0 ; blog la = { 0 }, lt = { 0 }, junk = { 0 } ;
	static const char *names [] = { "src_new", "src_new without error pointer", "src_callback_new", "src_clone of a new converter", "src_clone mid-stream", "src_clone after the end", "src_clone in callback mode", "src_simple" } ;
	vh_note ("%s ch=%d %s", conv_name [conv], ch, names [entry]) ;
	if (entry >= E_CLONE_FRESH && entry <= E_CLONE_CB)
	{	track = 1 ; subj_init (&a, g, conv, ch, entry == E_CLONE_CB) ; track = 0 ;
		t = a ; track = 1 ; subj_open (&t) ; track = 0 ; have = 1 ;
		n = gen_script (g, conv, ch, entry == E_CLONE_CB, entry == E_CLONE_FRESH ? 0 : 12, 4e4, SC_NOERR, ops) ;
		run_ops (&a, ops, 0, n, &junk) ; run_ops (&t, ops, 0, n, &junk) ;
		if (entry == E_CLONE_ENDED)
			for (int k = 0 ; k < 2 ; k++)
			{	SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.input_frames = 20 ; d.output_frames = 20 ; d.src_ratio = 1 ; d.end_of_input = 1 ;
				src_process (k ? t.st : a.st, &d) ;
				}
		}
	int base = nlive ; size_t base_bytes = live_bytes ;
	long total = -1 ;
	for (long f = -1 ; total < 0 || f < total ; f++)
		for (int how = 0 ; how < (f < 0 ? 1 : entry == E_SIMPLE ? 2 : 4) ; how++)
		{	int all = how & 1, noerr = entry == E_NEW_NOERR || how >= 2 ;		/* the last two without an error pointer */
			fail_at = f ; fail_all = all ; nfailed = 0 ; e = 4242 ; SRC_STATE *s = NULL ; int rc = 0 ;
			SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.input_frames = 20 ; d.output_frames = 20 ; d.src_ratio = 1 ;
			begin () ;
			switch (entry)
			{	case E_NEW : s = src_new (conv, ch, noerr ? NULL : &e) ; break ;
				case E_NEW_NOERR : s = src_new (conv, ch, NULL) ; break ;
				case E_CBNEW : s = src_callback_new (cb0, conv, ch, noerr ? NULL : &e, NULL) ; break ;
				case E_SIMPLE : rc = e = src_simple (&d, conv, ch) ; break ;
				default : s = src_clone (a.st, noerr ? NULL : &e) ; break ;
				}
			fail_at = -1 ; fail_all = 0 ;
			end (names [entry]) ;
			if (f < 0)
			{	total = nalloc ;
				if (total == 0) vh_fail ("no-allocation-seen", "%s allocated nothing the monitor could see", names [entry]) ;
				if (entry == E_SIMPLE) { if (rc) vh_fail ("simple", "src_simple failed: %d", rc) ; }
				else
				{	if (!s || (!noerr && e)) vh_fail ("create", "%s failed: %d", names [entry], e) ;
					if (do_delete (s)) vh_fail ("delete", "src_delete returned non-NULL") ;
					}
				}
			else
			{	if (nfailed == 0) continue ;
				vh_stat ("failures_injected", 1) ;
				if (entry != E_SIMPLE && s != NULL)
				{	/* the library may cope with the failure of an optional allocation, but then the handle must work */
					if (e != 0 && !noerr) vh_fail ("handle-and-error", "allocation %ld failed: a handle was returned together with error %d", f, e) ;
					SRC_DATA d2 = d ; d2.input_frames = 4 ; d2.output_frames = 4 ;
					int pe = entry == E_CBNEW || entry == E_CLONE_CB ? 0 : src_process (s, &d2) ;
					if (pe) vh_fail ("not-reported", "allocation %ld of %ld failed but %s gave a handle that does not work (%d)", f, total, names [entry], pe) ;
					do_delete (s) ;
					}
				else if (!noerr)
				{	const char *m = src_strerror (e) ;
					if (e == 0 || e == 4242) vh_fail ("not-reported", "allocation %ld of %ld failed in %s, error value is %d", f, total, names [entry], e) ;
					if (!m || !strstr (m, "alloc")) vh_fail ("wrong-error", "allocation %ld of %ld failed in %s, reported as error %d (%s)", f, total, names [entry], e, m ? m : "NULL") ;
					}
				}
			if (nlive != base || live_bytes != base_bytes)
				vh_fail ("leak", "%s with allocation %ld of %ld failing leaves %d blocks (%ld bytes) allocated", names [entry], f, total, nlive - base, (long) (live_bytes - base_bytes)) ;
			vh_sig (((uint64_t) entry << 40) ^ (conv * 1000 + ch) * 128 + (uint64_t) (f + 1) * 4 + how) ;
			vh_stat ("evaluations", 1) ;
			}
	if (have)
	{	/* the original is fully usable after all the failed clones */
		static op cont [40] ;
		int nc = gen_script (g, conv, ch, entry == E_CLONE_CB, 12, 4e4, 0, cont) ;
		run_ops (&a, cont, 0, nc, &la) ; run_ops (&t, cont, 0, nc, &lt) ;
		log_same (&la, &lt, "original-affected", "original after failed clones and its twin") ;
		do_delete (a.st) ; do_delete (t.st) ;
		}
	if (nlive) vh_fail ("leak", "%d blocks left after deleting everything", nlive) ;
	if (ch <= 2) vh_sample ("%s %s ch=%d: each of %ld allocations made to fail (alone, and with all later ones)", names [entry], conv_name [conv], ch, total) ;
	log_free (&la) ; log_free (&lt) ; log_free (&junk) ;
}

void vh_case (rng *g, long idx)
{	vh_cleanup (clean, NULL) ; nlive = 0 ; live_bytes = 0 ; track = 0 ; fail_at = -1 ;
	if (idx < NENUM) { enumerate (g, idx % 4 ? 1 + (int) (idx % 4) : MEDIUM, chs [idx / 4 % NCH], (int) (idx / (4 * NCH))) ; return ; }
	/* whole histories: everything released exactly once, nothing grows */
	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), cb = chance (g, 0.35), n ;
	static op ops [60] ; blog junk = { 0 } ; subj s [3] ; int ns = 1 ;
	n = gen_script (g, conv, ch, cb, (int) rndi (g, 1, 30), vh_light ? 3e4 : 1e5, 0, ops) ;
	vh_note ("%s ch=%d %s, history of %d operations", conv_name [conv], ch, cb ? "callback" : "process", n) ;
	track = 1 ; subj_init (&s [0], g, conv, ch, cb) ; track = 0 ;
	s [0].junk = 0 ; s [0].lay.s = 1 ;
	size_t lb [4] ; int lc [4] ;
	for (int k = 0 ; k < 4 ; k++)
	{	long p = s [0].pos, cp = s [0].cpos, cc = s [0].ccount ;
		/* the harness allocates too: only calls into the library are tracked */
		script_track = &track ; run_ops (&s [0], ops, 0, n, &junk) ; script_track = NULL ;
		begin () ; src_reset (s [0].st) ; end ("src_reset") ;
		if (bad_free) vh_fail ("bad-free", "%s of a block that is not allocated", bad_free_what) ;
		s [0].pos = p ; s [0].cpos = cp ; s [0].ccount = cc ; junk.n = 0 ;
		lb [k] = live_bytes ; lc [k] = nlive ;
		}
	if (lb [3] > lb [1] || lc [3] > lc [1]) vh_fail ("grows", "repeating the same history grows the library's memory from %ld to %ld bytes (%d to %d blocks)", (long) lb [1], (long) lb [3], lc [1], lc [3]) ;
	while (ns < 3 && chance (g, 0.5)) { int e ; s [ns] = s [0] ; begin () ; s [ns].st = src_clone (s [ns - 1].st, &e) ; end ("src_clone") ; if (!s [ns].st) vh_fail ("clone", "clone %d", e) ; ns ++ ; }
	int order = (int) rndi (g, 0, 1) ;
	for (int i = 0 ; i < ns ; i++) do_delete (s [order ? i : ns - 1 - i].st) ;
	if (nlive) vh_fail ("leak", "%d blocks (%ld bytes) still allocated after deleting %d converters", nlive, (long) live_bytes, ns) ;
	/* a complete src_simple leaves nothing */
	SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.input_frames = rndi (g, 0, 60) ; d.output_frames = rndi (g, 0, 60) ; d.src_ratio = chance (g, 0.2) ? 1000 : pick_ratio (g) ;
	begin () ; src_simple (&d, chance (g, 0.1) ? 9 : conv, chance (g, 0.1) ? 0 : ch) ; end ("src_simple") ;
	if (nlive) vh_fail ("leak", "%d blocks left by src_simple", nlive) ;
	/* nor do creations that are refused for their arguments */
	for (int k = 0 ; k < 4 ; k++)
	{	int e = 0, *ep = chance (g, 0.8) ? &e : NULL, bc = conv, bch = ch ; SRC_STATE *b = NULL ; const char *what ;
		int nocb = chance (g, 0.3) ;
		if (nocb) what = "src_callback_new without a function" ;
		else if (chance (g, 0.5)) { bch = chance (g, 0.5) ? (int) -rndi (g, 0, 100) : conv < ZOH ? (int) rndi (g, 129, 100000) : -ch ; what = "a bad channel count" ; }
		else { bc = chance (g, 0.5) ? (int) -rndi (g, 1, 100) : (int) rndi (g, 5, 100) ; what = "a bad converter" ; }
		begin () ;
		if (nocb) b = src_callback_new (NULL, bc, bch, ep, &e) ;
		else if (chance (g, 0.3)) b = src_callback_new (cb0, bc, bch, ep, &e) ;
		else if (chance (g, 0.5)) b = src_new (bc, bch, ep) ;
		else { d.src_ratio = 1 ; if (src_simple (&d, bc, bch) == 0) what = "src_simple accepted bad arguments" ; }
		end ("a refused creation") ;
		if (b) vh_fail ("accepted", "a converter was made in spite of %s", what) ;
		if (nlive) vh_fail ("leak", "%d blocks (%ld bytes) left by a creation refused for %s", nlive, (long) live_bytes, what) ;
		vh_stat ("refused_creations", 1) ;
		}
	vh_stat ("evaluations", 1) ; vh_stat ("histories", 1) ; vh_stat ("operations", 4 * n) ;
	vh_sig (script_sig (ops, n) * 7 + conv + 16 * ch) ;
	if (idx < NENUM + 30) vh_sample ("%s ch=%d: history of %d operations run 4 times, then %d handles deleted: %ld bytes live after each repetition, 0 at the end", conv_name [conv], ch, n, ns, (long) lb [1]) ;
	log_free (&junk) ;
}
void vh_fini (void) { vh_stat ("library_allocations_tracked", total_allocs) ; }

/* C13: converters in concurrent threads.  ThreadSanitizer watches the accesses; the logs of all results are compared with
** a single-threaded run made afterwards (so that nothing is already initialised when the threads start). */
#include "script.h"
#include <pthread.h>
#include <sched.h>
const char *vh_prop = "C13" ;
long vh_ncases (int t) { return t ? 20000 : vh_light ? 700 : 900 ; }
void vh_init (void) { script_init (0) ; }
#define MAXJ 8
#define MAXSEG 24
#define MAXOPS 12
enum { S_NEW, S_OPS, S_CLONE, S_RESET, S_DELETE, S_PURE, S_SIMPLE, S_FAILNEW, S_KINDS } ;
typedef struct { int what, n ; op ops [MAXOPS] ; uint64_t seed ; int thread, yield ; } seg ;
typedef struct
{	int conv, ch, cb, nseg ; seg s [MAXSEG] ; subj base ;
	} job ;
typedef struct { subj s ; int open ; blog log ; int next ; pthread_mutex_t mu ; pthread_cond_t cv ; } run ;
static job jobs [MAXJ] ; static run conc [MAXJ], solo [MAXJ] ; static int njobs, nthreads, handoff, broken ;
static pthread_barrier_t bar ;

static void plog (blog *l, const void *p, long n)
{	if (l->n + n > l->cap) { l->cap = (l->n + n) * 2 + 1024 ; l->v = realloc (l->v, l->cap) ; }
	memcpy (l->v + l->n, p, n) ; l->n += n ;
}
static void plogf (blog *l, const float *p, long n) { plog (l, p, n * sizeof (float)) ; l->frames += n ; }
/* the functions that take no converter */
static void pure (uint64_t seed, blog *l)
{	rng g = { seed } ;
	for (int i = 0 ; i < 12 ; i++)
	{	int e = (int) rndi (&g, -2, 30) ; const char *s ;
		switch (rndi (&g, 0, 5))
		{	case 0 : s = src_strerror (e) ; plog (l, s ? s : "-", s ? strlen (s) : 1) ; break ;
			case 1 : s = src_get_name (e % 8) ; plog (l, s ? s : "-", s ? strlen (s) : 1) ; break ;
			case 2 : s = src_get_description (e % 8) ; plog (l, s ? s : "-", s ? strlen (s) : 1) ; break ;
			case 3 : s = src_get_version () ; plog (l, s, strlen (s)) ; break ;
			case 4 : { double r = exp (rndu (&g) * 14 - 7) ; int v = src_is_valid_ratio (r) ; plog (l, &v, sizeof v) ; break ; }
			default :
				{	float f [300], h [300] ; short t [300] ; int u [300] ; int n = (int) rndi (&g, 0, 300) ;
					for (int k = 0 ; k < n ; k++) f [k] = 1.2f * noise_at (seed, k) ;
					src_float_to_short_array (f, t, n) ; src_short_to_float_array (t, h, n) ; plog (l, t, n * sizeof (short)) ; plogf (l, h, n) ;
					src_float_to_int_array (f, u, n) ; src_int_to_float_array (u, h, n) ; plog (l, u, n * sizeof (int)) ; plogf (l, h, n) ;
					}
			}
		}
}
static void simple (const job *j, uint64_t seed, blog *l)
{	rng g = { seed } ; double r = pick_ratio_range (&g, 0.05, 20) ;
	long n = rndi (&g, 1, 1200) ; if (n * j->ch > 8000) n = 8000 / j->ch ; long m = (long) (n * r) + 2 ;
	if (m * conv_cost (j->conv, j->ch, r) > 1e6) m = (long) (1e6 / conv_cost (j->conv, j->ch, r)) ;
	float *o = malloc ((m * j->ch + 1) * sizeof (float)) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
	d.data_in = script_pool + rndi (&g, 0, 1000) ; d.data_out = o ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ;
	int e = src_simple (&d, j->conv, j->ch) ;
	plog (l, &e, sizeof e) ; plog (l, &d.input_frames_used, sizeof (long)) ; plog (l, &d.output_frames_gen, sizeof (long)) ;
	if (!e) plogf (l, o, d.output_frames_gen * j->ch) ;
	free (o) ;
}
static void run_seg (const job *j, run *r, int k, int inthread)
{	const seg *s = &j->s [k] ; int e = -9 ;
	if (inthread) for (int y = 0 ; y < s->yield ; y++) sched_yield () ;
	plog (&r->log, &s->what, sizeof s->what) ;
	switch (s->what)
	{	case S_NEW : if (!r->open) { r->s = j->base ; r->s.junk = (int) (s->seed & 255) ; r->s.lay.s = s->seed ; subj_open (&r->s) ; r->open = 1 ; } break ;
		case S_OPS : if (r->open) run_ops (&r->s, s->ops, 0, s->n, &r->log) ; break ;
		case S_CLONE :
			if (r->open)
			{	subj c = r->s ; c.slot = r->s.slot ; c.st = src_clone (r->s.st, &e) ; plog (&r->log, &e, sizeof e) ;
				if (c.st) { run_ops (&c, s->ops, 0, s->n, &r->log) ; src_delete (c.st) ; }
				}
			break ;
		case S_RESET : if (r->open) { e = src_reset (r->s.st) ; plog (&r->log, &e, sizeof e) ; } break ;
		case S_DELETE : if (r->open) { src_delete (r->s.st) ; r->open = 0 ; } break ;
		case S_PURE : pure (s->seed, &r->log) ; break ;
		case S_SIMPLE : simple (j, s->seed, &r->log) ; break ;
		default : { SRC_STATE *t = src_new ((int) (s->seed % 7) + 5, j->ch, &e) ; plog (&r->log, &e, sizeof e) ; if (t) src_delete (t) ; t = src_new (j->conv, s->seed & 8 ? 0 : -1, &e) ; plog (&r->log, &e, sizeof e) ; if (t) src_delete (t) ; }
		}
}
typedef struct { int id ; } targ ;
static void thread_body (void *a)
{	int id = ((targ *) a)->id ;
	if (!handoff)
	{	for (int k = 0 ; k < jobs [id].nseg ; k++) run_seg (&jobs [id], &conc [id], k, 1) ;
		return ;
		}
	/* segments in one global order; each waits for the previous segment of its job, run by another thread perhaps */
	for (int k = 0 ; k < MAXSEG ; k++)
		for (int j = 0 ; j < njobs ; j++)
			if (k < jobs [j].nseg && jobs [j].s [k].thread == id)
			{	run *r = &conc [j] ; int b ;
				pthread_mutex_lock (&r->mu) ;
				while (r->next != k && !__atomic_load_n (&broken, __ATOMIC_RELAXED)) pthread_cond_wait (&r->cv, &r->mu) ;
				pthread_mutex_unlock (&r->mu) ;
				b = __atomic_load_n (&broken, __ATOMIC_RELAXED) ; if (b) return ;
				run_seg (&jobs [j], r, k, 1) ;
				pthread_mutex_lock (&r->mu) ; r->next = k + 1 ; pthread_cond_broadcast (&r->cv) ; pthread_mutex_unlock (&r->mu) ;
				}
}
static void *thread_main (void *a)
{	pthread_barrier_wait (&bar) ;
	if (vh_guarded (thread_body, a))
	{	__atomic_store_n (&broken, 1, __ATOMIC_RELAXED) ;
		for (int j = 0 ; j < njobs ; j++) { pthread_mutex_lock (&conc [j].mu) ; pthread_cond_broadcast (&conc [j].cv) ; pthread_mutex_unlock (&conc [j].mu) ; }
		}
	return NULL ;
}
void vh_case (rng *g, long idx)
{	njobs = nthreads = (int) rndi (g, 2, MAXJ) ; handoff = chance (g, 0.4) ; broken = 0 ;
	int sameconv = chance (g, 0.6) ? pick_conv (g) : 0, samech = chance (g, 0.5) ? pick_channels (g, LINEAR, 12) : 0 ;
	double budget = vh_light ? 6e4 : 8e5 ; uint64_t sig = handoff ; long handoffs = 0, nops = 0, last ;
	for (int j = 0 ; j < njobs ; j++)
	{	job *b = &jobs [j] ; memset (b, 0, sizeof *b) ;
		b->conv = sameconv ? sameconv : pick_conv (g) ; b->ch = samech ? samech : pick_channels (g, b->conv, 24) ; b->cb = chance (g, 0.35) ;
		b->base.conv = b->conv ; b->base.ch = b->ch ; b->base.cb = b->cb ;
		b->base.off = rndi (g, 0, script_pool_n - 1) ; b->base.cseed = rnd (g) >> 1 ; b->base.cstyle = (int) rndi (g, BLK_TINY, BLK_EXACT) ;
		b->base.cN = chance (g, 0.5) ? 1L << 40 : rndi (g, 0, 5000) ;
		b->nseg = (int) rndi (g, 4, MAXSEG) ; sig = sig * 31 + b->conv * 64 + b->ch + b->cb * 999 ;
		for (int k = 0 ; k < b->nseg ; k++)
		{	seg *s = &b->s [k] ; int q = (int) rndi (g, 0, 19) ;
			s->what = k == 0 || k == b->nseg - 1 ? (k ? S_DELETE : S_NEW) : q < 7 ? S_OPS : q < 10 ? S_CLONE : q < 12 ? S_RESET : q == 12 ? S_DELETE : q < 15 ? S_NEW : q < 17 ? S_PURE : q < 19 ? S_SIMPLE : S_FAILNEW ;
			s->seed = rnd (g) ; s->thread = (int) rndi (g, 0, nthreads - 1) ; s->yield = chance (g, 0.3) ? (int) rndi (g, 1, 5) : 0 ;
			if (s->what == S_OPS || s->what == S_CLONE) { s->n = gen_script (g, b->conv, b->ch, b->cb, MAXOPS, budget, 0, s->ops) ; nops += s->n ; sig = sig * 31 + script_sig (s->ops, s->n) ; }
			if (k && s->thread != last) handoffs ++ ;
			last = s->thread ;
			}
		run *r = &conc [j] ; memset (r, 0, sizeof *r) ; pthread_mutex_init (&r->mu, NULL) ; pthread_cond_init (&r->cv, NULL) ;
		memset (&solo [j], 0, sizeof solo [j]) ;
		}
	vh_note ("%d threads%s, %s ch=%d", nthreads, handoff ? ", handles handed between threads" : "", sameconv ? conv_name [sameconv] : "mixed converters", samech) ;
	pthread_t th [MAXJ] ; targ ta [MAXJ] ; pthread_barrier_init (&bar, NULL, nthreads) ;
	for (int t = 0 ; t < nthreads ; t++) { ta [t].id = t ; if (pthread_create (&th [t], NULL, thread_main, &ta [t])) { fprintf (stderr, "pthread_create failed\n") ; exit (2) ; } }
	for (int t = 0 ; t < nthreads ; t++) pthread_join (th [t], NULL) ;
	pthread_barrier_destroy (&bar) ;
	if (!broken)
	{	for (int j = 0 ; j < njobs ; j++)
			for (int k = 0 ; k < jobs [j].nseg ; k++) run_seg (&jobs [j], &solo [j], k, 0) ;
		long frames = 0 ;
		for (int j = 0 ; j < njobs ; j++)
		{	char w [100] ; snprintf (w, sizeof w, "%s ch=%d job %d of %d, concurrent and single-threaded run", conv_name [jobs [j].conv], jobs [j].ch, j, njobs) ;
			log_same (&conc [j].log, &solo [j].log, "concurrent-differs", w) ; frames += conc [j].log.frames ;
			}
		vh_stat ("threads", nthreads) ; vh_stat ("frames_compared", frames) ; vh_stat ("script_ops", nops) ; if (handoff) vh_stat ("handoffs", handoffs) ;
		vh_sig (sig) ;
		if (idx < 20) vh_sample ("%d threads%s: %ld script operations, %ld frames equal to the single-threaded run", nthreads, handoff ? " with handoff" : "", nops, frames) ;
		}
	for (int j = 0 ; j < njobs ; j++) { log_free (&conc [j].log) ; log_free (&solo [j].log) ; pthread_mutex_destroy (&conc [j].mu) ; pthread_cond_destroy (&conc [j].cv) ; }
}

/* C15: the same history under different heaps, stacks, layouts and neighbours gives the same log; MemorySanitizer watches every
** decision and every output sample. */
#include "script.h"
#include <malloc.h>
#include <xmmintrin.h>
const char *vh_prop = "C15" ;
long vh_ncases (int t) { return t ? 40000 : 7000 ; }
void vh_init (void) { script_init (1) ; }
#define MAXOPS 40
static op ops [MAXOPS], oops [MAXOPS] ;
static void *noise [64] ; static int nnoise ;
static void noise_free (void *u) { (void) u ; while (nnoise) free (noise [--nnoise]) ; mallopt (M_PERTURB, 0) ; }
static void heap_noise (rng *g, int byte)
{	/* recycled chunks full of junk, so that fresh allocations land on used memory */
	int n = (int) rndi (g, 0, 12) ; void *t [12] ;
	for (int i = 0 ; i < n ; i++) { size_t z = chance (g, 0.5) ? rndi (g, 1, 2000) : rndi (g, 1, 300000) ; t [i] = malloc (z) ; memset (t [i], byte, z) ; }
	for (int i = 0 ; i < n ; i++) if (nnoise < 60 && chance (g, 0.3)) noise [nnoise++] = t [i] ; else free (t [i]) ;
}
static void simple_log (const subj *s, uint64_t seed, int byte, blog *l)
{	rng g = { seed } ; double r = pick_ratio_range (&g, 0.03, 30) ; long n = rndi (&g, 0, 800) ; if (n * s->ch > 20000) n = 20000 / s->ch ;
	long m = (long) (n * r) + rndi (&g, 0, 4) ; double c = conv_cost (s->conv, s->ch, r) ; if (m * c > 3e5) m = (long) (3e5 / c) ;
	float *o = gb_alloc (m * s->ch), *in = gb_alloc (n * s->ch) ; SRC_DATA d ; memset (&d, byte, sizeof d) ;
	if (n) memcpy (in, script_pool + 777, n * s->ch * sizeof (float)) ;
	/* the fields the library has to fill in are left as they are */
	d.data_in = in ; d.data_out = o ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ;
	int e = src_simple (&d, s->conv, s->ch) ; if (e) vh_fail ("simple-error", "src_simple failed with %d", e) ;
	long v [2] = { d.input_frames_used, d.output_frames_gen } ;
	if (v [0] < 0 || v [0] > n || v [1] < 0 || v [1] > m) vh_fail ("range", "src_simple used %ld of %ld, gave %ld of %ld", v [0], n, v [1], m) ;
	long need = l->n + sizeof v + v [1] * s->ch * sizeof (float) ;
	if (need > l->cap) { l->cap = need * 2 ; l->v = realloc (l->v, l->cap) ; }
	memcpy (l->v + l->n, v, sizeof v) ; l->n += sizeof v ;
	for (long i = 0 ; i < v [1] * s->ch ; i++) { float f = o [i] ; if (f != f) f = 0 ; memcpy (l->v + l->n, &f, 4) ; l->n += 4 ; }
	l->frames += v [1] ;
	gb_free (o) ; gb_free (in) ;
}
static blog a, b, dump ; static subj s1, s2, other ;
static void fin (void *u) { (void) u ; log_free (&a) ; log_free (&b) ; log_free (&dump) ; }
void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), cb = chance (g, 0.35), oconv = pick_conv (g) ;
	double budget = vh_light ? 2e5 : vh_thorough ? 4e6 : 2e6 ; uint64_t sseed = rnd (g) ; int dosimple = chance (g, 0.2) ;
	vh_cleanup (fin, NULL) ; vh_cleanup (noise_free, NULL) ;
	vh_note ("%s ch=%d%s", conv_name [conv], ch, cb ? " callback" : "") ;
	int n = gen_script (g, conv, ch, cb, (int) rndi (g, 3, MAXOPS), budget, 0, ops), no = gen_script (g, oconv, 1 + ch % 5, 0, MAXOPS, budget / 8, SC_NOERR, oops), oi = 0 ;
	subj_init (&s1, g, conv, ch, cb) ;
	if (chance (g, 0.5)) s1.junk = 0 ;
	int cloneat = chance (g, 0.3) ? (int) rndi (g, 0, n - 1) : -1, e = 0 ;
	for (int i = 0 ; i < n ; i++)
	{	run_ops (&s1, ops, i, i + 1, &a) ;
		if (i == cloneat) { SRC_STATE *c = src_clone (s1.st, &e) ; if (!c) vh_fail ("clone", "src_clone failed: %d", e) ; src_delete (s1.st) ; s1.st = c ; }
		if (dosimple && i == n / 2) simple_log (&s1, sseed, 0, &a) ;
		}
	src_delete (s1.st) ;
	/* once more, with everything that must not matter changed */
	int pert = (int) rndi (g, 1, 255), jk = chance (g, 0.4) ? 255 : chance (g, 0.5) ? 0x7f : (int) rndi (g, 1, 255) ;
	mallopt (M_PERTURB, pert) ; heap_noise (g, jk) ; stack_fill (jk) ;
	subj keep = s1 ; memset (&s2, 0, sizeof s2) ; s2.conv = conv ; s2.ch = ch ; s2.cb = cb ; subj_same_data (&s2, &keep) ;
	/* the data position counts from the start again */
	s2.pos = s2.cpos = 0 ; s2.ccount = 0 ; s2.junk = chance (g, 0.8) ? jk : -1 ; s2.lay.s = rnd (g) ;
	subj_open (&s2) ; subj_init (&other, g, oconv, 1 + ch % 5, 0) ; other.junk = 1 ;
	unsigned csr = _mm_getcsr () & ~0x3fu ;
	for (int i = 0 ; i < n ; i++)
	{	if (chance (g, 0.5)) stack_fill ((int) rndi (g, 0, 255)) ; else stack_fill (jk) ;
		if (chance (g, 0.3)) { heap_noise (g, jk) ; mallopt (M_PERTURB, (int) rndi (g, 1, 255)) ; }
		run_ops (&s2, ops, i, i + 1, &b) ;
		if ((_mm_getcsr () & ~0x3fu) != csr) vh_fail ("fp-environment", "the floating point control word was changed") ;
		if (i == cloneat) { SRC_STATE *c = src_clone (s2.st, &e) ; if (!c) vh_fail ("clone", "src_clone failed: %d", e) ; if (s2.st) src_delete (s2.st) ; s2.st = c ; }
		if (dosimple && i == n / 2) simple_log (&s2, sseed, jk, &b) ;
		if (oi < no && chance (g, 0.6)) { run_ops (&other, oops, oi, oi + 1, &dump) ; oi ++ ; }
		}
	src_delete (s2.st) ; src_delete (other.st) ;
	log_same (&a, &b, "not-deterministic", "two runs of the same history") ;
	vh_stat ("ops_compared", n) ; vh_stat ("frames_compared", a.frames) ; vh_stat ("foreign_ops_interleaved", oi) ;
	if (a.frames) vh_sig (script_sig (ops, n) ^ (conv * 77777ull + ch * 31 + cb)) ;
	if (idx < 20) vh_sample ("%s ch=%d%s: %d operations, %ld frames identical under perturbed heap (%d), stack, pads (%d) and %d foreign operations", conv_name [conv], ch, cb ? " callback" : "", n, a.frames, pert, jk, oi) ;
}

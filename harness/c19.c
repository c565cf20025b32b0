/* C19: builds of the library with other compilers, options, processors and feature sets, all linked into one program (their symbols are
** renamed) and compared with the plain build on the same histories. */
#define _GNU_SOURCE
#include "c19.h"
#include "script.h"
#include <dlfcn.h>
#include <sys/mman.h>
const char *vh_prop = "C19" ;
long vh_ncases (int t) { return t ? 80000 : 26000 ; }
__thread const api_t *api ;
static api_t so_api [8] ; static const api_t *tab [64] ; static int usable [64], nusable ;
static op ops [80] ;
static int cpu_ok (const char *w) { __builtin_cpu_init () ; return !strcmp (w, "v3") ? __builtin_cpu_supports ("avx2") && __builtin_cpu_supports ("fma") && __builtin_cpu_supports ("bmi2") : 1 ; }
static void *sym (void *h, const char *n) { void *p = dlsym (h, n) ; if (!p) printf ("VIOL\t0\tnot-exported\tthe shared library does not export %s\n", n) ; return p ; }
void vh_init (void)
{	int nso = 0 ;
	script_init (1) ;
	for (int i = 0 ; i < nbuilds ; i++)
	{	tab [i] = builds [i].api ;
		if (builds [i].cpu && !cpu_ok (builds [i].cpu)) continue ;
		if (builds [i].so)
		{	void *h = dlopen (builds [i].so, RTLD_NOW | RTLD_LOCAL) ; api_t *a = &so_api [nso++] ; int bad = 0 ;
			if (!h) { printf ("VIOL\t0\tshared\tthe shared library cannot be loaded: %s\n", dlerror ()) ; continue ; }
#define X(f) a->f = sym (h, "src_" #f) ; bad |= !a->f ;
			API_LIST (X)
#undef X
			if (bad) continue ;
			tab [i] = a ;
			}
		usable [nusable++] = i ;
		}
	api = tab [0] ;
}
static int has (int b, int conv) { return conv >= ZOH || (conv == 0 ? builds [b].best : conv == MEDIUM ? builds [b].medium : builds [b].fast) ; }
static void plain (void *u) { (void) u ; api = tab [0] ; }

/* a history; at operation k the converter is replaced by a clone */
static void history (subj *s, const op *ops, int n, int k, blog *l)
{	run_ops (s, ops, 0, k, l) ;
	if (k < n)
	{	int e = -1 ; SRC_STATE *c = src_clone (s->st, &e) ; if (!c || e) vh_fail ("clone-failed", "src_clone: error %d", e) ;
		vh_delete (s->st) ; s->st = c ; run_ops (s, ops, k, n, l) ;
		}
	vh_delete (s->st) ;
}
/* the same history in both */
static void twins (rng *g, int b, int ref, int conv, long idx)
{	int ch = pick_channels (g, conv, builds [b].maxch < 128 ? builds [b].maxch : conv >= ZOH ? 200 : 128), cb = chance (g, 0.4) ; subj s, t ; blog la = { 0 }, lb = { 0 } ;
	int n = gen_script (g, conv, ch, cb, (int) rndi (g, 2, 40), 2e5, 0, ops), k = chance (g, 0.4) ? (int) rndi (g, 0, n) : n ; rng g0 = *g ;
	vh_note ("%s: %s ch=%d %s, %d operations", builds [b].name, conv_name [conv], ch, cb ? "callback" : "process", n) ;
	subj_init (&s, g, conv, ch, cb) ; history (&s, ops, n, k, &la) ;
	api = tab [b] ; *g = g0 ; subj_init (&t, g, conv, ch, cb) ; history (&t, ops, n, k, &lb) ; api = tab [0] ;
	char w [200] ; snprintf (w, sizeof w, "plain build and %s", builds [b].name) ; (void) ref ;
	log_same (&la, &lb, "build-differs", w) ;
	vh_stat ("frames_compared", la.frames) ; vh_stat ("histories", 1) ;
	vh_sig (b * 7919ull + conv * 1000003ull + ch * 31 + cb * 7 + (k < n ? k * 193ull : 0) + script_sig (ops, n)) ; if (k < n) vh_stat ("clones", 1) ;
	if (idx < 60) vh_sample ("%s: %s ch=%d, %d operations, %ld frames bit-identical to the plain build", builds [b].name, conv_name [conv], ch, n, la.frames) ;
	log_free (&la) ; log_free (&lb) ;
}
/* constant ratio, other rounding */
static void streams (rng *g, int b, int conv, long idx)
{	int ch = pick_channels (g, conv, builds [b].maxch < 128 ? builds [b].maxch : 128) ; double r = pick_ratio (g) ; long N = pick_N (g, conv, ch, r, 4e5) ;
	float *x = make_signal (g, chance (g, 0.5) ? SIG_NOISE : (int) rndi (g, 0, SIG_TINY - 1), N, ch) ; fvec y = { 0 }, z = { 0 } ; sched s ; pick_sched (g, &s, N, r) ;
	vh_note ("%s: %s ch=%d ratio=%.17g N=%ld", builds [b].name, conv_name [conv], ch, r, N) ; vh_steps (500000) ;
	ref_stream (conv, ch, x, N, r, &y) ;
	api = tab [b] ;
	if (chance (g, 0.2)) vh_simple (conv, ch, x, N, (long) (N * r) + 20, r, 1, &z) ;
	else { SRC_STATE *st = vh_new (conv, ch) ; vh_stream (st, ch, x, N, r, &s, &z, NULL) ; vh_delete (st) ; }
	api = tab [0] ;
	double lo, hi ; expected_total (conv, N, r, &lo, &hi) ; long n = z.n / ch ;
	if (n < lo || n > hi) vh_fail ("build-total", "%s: %ld frames from %ld at ratio %.17g", builds [b].name, n, N, r) ;
	cmp_streams (conv, ch, r, &y, &z, peak_of (x, N * ch), 1, "build-differs", "plain build and this one") ;
	vh_stat ("frames_compared", n) ; vh_stat ("streams", 1) ;
	vh_sig (b * 7919ull + conv * 1000003ull + ch * 31 + ratio_classi (r) * 65537 + s.in_style * 11 + s.out_style * 77 + 5) ;
	if (idx < 60) vh_sample ("%s: %s ch=%d ratio=%.6g, %ld frames like the plain build's", builds [b].name, conv_name [conv], ch, r, n) ;
	fv_free (&y) ; fv_free (&z) ;
}
/* more channels than usual: every one like a mono conversion of the plain build */
static void many_channels (rng *g, int b, int conv, long idx)
{	int ch = (int) rndi (g, 129, builds [b].maxch) ; double r = pick_ratio_range (g, 0.05, 20) ; long N = pick_N (g, conv, ch, r, 4e5) ; uint64_t sd = rnd (g) ;
	float *x = gb_alloc (N * ch), *m = gb_alloc (N) ; for (long i = 0 ; i < N * ch ; i++) x [i] = noise_at (sd, i) ;
	vh_note ("%s: %s ch=%d ratio=%.17g N=%ld", builds [b].name, conv_name [conv], ch, r, N) ; vh_steps (500000) ;
	fvec y = { 0 }, z = { 0 }, q = { 0 } ; sched s ; pick_sched (g, &s, N, r) ;
	api = tab [b] ; SRC_STATE *st = vh_new (conv, ch) ;
	if (chance (g, 0.3)) { int e ; SRC_STATE *c = src_clone (st, &e) ; if (!c || e) vh_fail ("clone-failed", "src_clone: %d", e) ; vh_delete (st) ; st = c ; }
	vh_stream (st, ch, x, N, r, &s, &z, NULL) ; vh_delete (st) ; api = tab [0] ;
	for (int k = 0 ; k < 3 ; k++)
	{	int c = k == 0 ? ch - 1 : (int) rndi (g, 0, ch - 1) ; for (long i = 0 ; i < N ; i++) m [i] = x [i * ch + c] ;
		y.n = q.n = 0 ; ref_stream (conv, 1, m, N, r, &y) ; for (long i = 0 ; i < z.n / ch ; i++) fv_add (&q, z.v + i * ch + c, 1) ;
		cmp_streams (conv, 1, r, &y, &q, 1, 1, "channel", "mono in the plain build and one of many channels") ;
		}
	vh_stat ("frames_compared", z.n / ch) ; vh_stat ("many_channel_streams", 1) ;
	vh_sig (b * 7919ull + conv * 1000003ull + ch * 31 + ratio_classi (r) * 65537 + 6) ;
	if (idx < 100) vh_sample ("%s: %s ch=%d ratio=%.6g, channels like mono", builds [b].name, conv_name [conv], ch, r) ;
	fv_free (&y) ; fv_free (&z) ; fv_free (&q) ;
}
static float any_float (rng *g)
{	switch (rndi (g, 0, 6))
	{	case 0 : { uint32_t u = (uint32_t) rnd (g) ; float f ; memcpy (&f, &u, 4) ; return f != f ? INFINITY : f ; }
		case 1 : return (float) (rndi (g, -65537, 65537) / 65536.0) ;
		case 2 : return (float) (rndi (g, -131074, 131074) / 131072.0) ;
		case 3 : { static const float v [] = { 1, -1, INFINITY, -INFINITY, 0, -0.0f, 3e38f, -3e38f, 1e-40f, 2, -2, 0.99999994f, -0.99999994f, 1.0000001f, -1.0000001f, 65536, -65536, 4294967296.f, -4294967296.f } ; return v [rndi (g, 0, 18)] ; }
		case 4 : return (float) ((rnd (g) & 1 ? 1 : -1) * (1 + (rndu (g) - 0.5) * 1e-6)) ;
		default : return (float) (rndu (g) * 2.2 - 1.1) ;
		}
}
static void conversions (rng *g, int b, long idx)
{	int n = (int) rndi (g, 1, 600) ; float f [600], f1 [600], f2 [600] ; short s [600], s1 [600], s2 [600] ; int i [600], i1 [600], i2 [600] ;
	vh_note ("%s: format conversions of %d values", builds [b].name, n) ;
	for (int k = 0 ; k < n ; k++) { f [k] = any_float (g) ; s [k] = (short) rnd (g) ; i [k] = chance (g, 0.2) ? (int) rndi (g, -5, 5) : (int) (rnd (g) >> rndi (g, 0, 31)) ; }
#define BOTH(call1, call2) call1 ; api = tab [b] ; call2 ; api = tab [0]
	BOTH (src_float_to_short_array (f, s1, n), src_float_to_short_array (f, s2, n)) ; for (int k = 0 ; k < n ; k++) if (s1 [k] != s2 [k]) vh_fail ("conversion", "%s: %.9g becomes %d, in the plain build %d", builds [b].name, f [k], s2 [k], s1 [k]) ;
	BOTH (src_float_to_int_array (f, i1, n), src_float_to_int_array (f, i2, n)) ; for (int k = 0 ; k < n ; k++) if (i1 [k] != i2 [k]) vh_fail ("conversion", "%s: %.9g becomes %d, in the plain build %d", builds [b].name, f [k], i2 [k], i1 [k]) ;
	BOTH (src_short_to_float_array (s, f1, n), src_short_to_float_array (s, f2, n)) ; if (memcmp (f1, f2, n * 4)) vh_fail ("conversion", "%s: short to float differs", builds [b].name) ;
	BOTH (src_int_to_float_array (i, f1, n), src_int_to_float_array (i, f2, n)) ; if (memcmp (f1, f2, n * 4)) vh_fail ("conversion", "%s: int to float differs", builds [b].name) ;
	vh_stat ("values_converted", 4.0 * n) ; vh_sig (b * 7919ull + n * 31 + 7) ; (void) idx ;
}
static long cb0 (void *u, float **d) { (void) u ; (void) d ; return 0 ; }
/* input and output whose addresses agree in their lower 32 bits do not overlap */
static float *far_at (int k)
{	static float *m [3] ;
	for (int i = 0 ; i < 3 && !m [2] ; i++)
	{	m [i] = mmap ((void *) (0x210000000000ul + ((unsigned long) i << 32)), 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) ;
		if (m [i] == MAP_FAILED) { fprintf (stderr, "no memory where it is needed\n") ; exit (2) ; }
		}
	return m [k] ;
}
static void far_apart (rng *g, int b)
{	int i = (int) rndi (g, 0, 2), o = (i + (int) rndi (g, 1, 2)) % 3, t ; float *in = far_at (i) + rndi (g, 0, 500), *out = far_at (o) + rndi (g, 0, 500) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
	do t = pick_conv (g) ; while (!has (b, t)) ;
	d.data_in = in ; d.data_out = out ; d.input_frames = d.output_frames = rndi (g, 1, 1000) ; d.src_ratio = 1 ; api = tab [b] ; int e = src_simple (&d, t, 1) ; api = tab [0] ;
	if (e) vh_fail ("far-apart", "%s: buffers 4 GB apart: error %d", builds [b].name, e) ;
	vh_stat ("buffers_4GB_apart", 1) ;
}
/* the interface as released: programs compiled long ago run with every build */
typedef struct { const float *data_in ; float *data_out ; long input_frames, output_frames, input_frames_used, output_frames_gen ; int end_of_input ; double src_ratio ; } released ;
static void published (rng *g, int b)
{	float in [300], out [700], ref [700] ; int t, ch = (int) rndi (g, 1, 3), e ; do t = pick_conv (g) ; while (!has (b, t)) ;
	for (int i = 0 ; i < 300 ; i++) in [i] = noise_at (77, i) ;
	double r = pick_ratio_range (g, 0.3, 2) ; SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = ref ; d.input_frames = 300 / ch ; d.output_frames = 700 / ch ; d.src_ratio = r ; d.end_of_input = 1 ;
	api = tab [b] ; e = src_simple (&d, t, ch) ; api = tab [0] ; if (e) vh_fail ("published", "%s: error %d", builds [b].name, e) ;
	struct { released d ; char after [64] ; } o ; memset (&o, 0x5a, sizeof o) ; o.d = (released) { in, out, 300 / ch, 700 / ch, -1, -1, 1, r } ;
	void *(*new_) (int, int, int *) = (void *(*) (int, int, int *)) tab [b]->new ; int (*process) (void *, released *) = (int (*) (void *, released *)) tab [b]->process ; void *(*delete_) (void *) = (void *(*) (void *)) tab [b]->delete ;
	void *s = new_ (t, ch, &e) ; if (!s || e) vh_fail ("published", "%s: error %d", builds [b].name, e) ;
	e = process (s, &o.d) ; delete_ (s) ;
	for (int i = 0 ; i < 64 ; i++) if (o.after [i] != 0x5a) vh_fail ("published", "%s: something was written behind SRC_DATA", builds [b].name) ;
	if (e || o.d.data_in != in || o.d.data_out != out || o.d.input_frames != 300 / ch || o.d.output_frames != 700 / ch || o.d.src_ratio != r || o.d.end_of_input != 1) vh_fail ("published", "%s: a program that uses the released layout of SRC_DATA gets error %d or a changed structure", builds [b].name, e) ;
	if (o.d.input_frames_used != d.input_frames_used || o.d.output_frames_gen != d.output_frames_gen || memcmp (out, ref, d.output_frames_gen * ch * 4))
		vh_fail ("published", "%s: a program that uses the released layout of SRC_DATA gets %ld frames from %ld instead of %ld from %ld, or other samples", builds [b].name, o.d.output_frames_gen, o.d.input_frames_used, d.output_frames_gen, d.input_frames_used) ;
	vh_stat ("released_layout_used", 1) ;
}
/* a program as users write it, in several languages, against the installed header and the shared library */
typedef int (*urun_t) (int, int, const float *, long, double, float *, float *, float *, long, long *) ; typedef int (*unum_t) (int *) ;
static void program (rng *g, int k, long idx)
{	static void *h [16] ; const char *how = users [k].how ; int num [5], t = pick_conv (g), ch = (int) rndi (g, 1, 7) ; long n = rndi (g, 1, 400), gen [3] ; double r = pick_ratio_range (g, 0.2, 3) ; float *x = gb_alloc (n * ch), *o [4] ; SRC_DATA d ;
	vh_note ("program compiled with %s: %s ch=%d ratio=%.17g N=%ld", how, conv_name [t], ch, r, n) ;
	if (!users [k].so) vh_fail ("program", "a program that uses the public header cannot be compiled and linked with %s: %s", how, users [k].why) ;
	if (!h [k]) h [k] = dlopen (users [k].so, RTLD_NOW | RTLD_LOCAL) ;
	if (!h [k]) vh_fail ("program", "%s: %s", how, dlerror ()) ;
	urun_t run = (urun_t) dlsym (h [k], "user_run") ; unum_t numbers = (unum_t) dlsym (h [k], "user_numbers") ; if (!run || !numbers) { fprintf (stderr, "user program lacks its functions\n") ; exit (2) ; }
	int size = numbers (num) ; for (int i = 0 ; i < 5 ; i++) if (num [i] != i) vh_fail ("program", "converter %d has the number %d in the header", i, num [i]) ;
	if (size != (int) sizeof (released)) vh_fail ("program", "SRC_DATA has %d bytes instead of %d", size, (int) sizeof (released)) ;
	for (long i = 0 ; i < n * ch ; i++) x [i] = noise_at (77 + idx, i) ;
	long room = (long) (n * r) + 50 ; for (int i = 0 ; i < 4 ; i++) o [i] = gb_alloc (room * ch) ;
	int e = run (t, ch, x, n, r, o [0], o [1], o [2], room, gen) ; if (e) vh_fail ("program", "%s: the program failed at step %d", how, e) ;
	memset (&d, 0, sizeof d) ; d.data_in = x ; d.data_out = o [3] ; d.input_frames = n ; d.output_frames = room ; d.src_ratio = r ; d.end_of_input = 1 ;
	e = src_simple (&d, t, ch) ; if (e) vh_fail ("program", "plain build: error %d", e) ;
	for (int i = 0 ; i < 2 ; i++) if (gen [i] != d.output_frames_gen || memcmp (o [i], o [3], gen [i] * ch * 4)) vh_fail ("program", "%s: %ld frames through %s, %ld from the plain build, or other samples", how, gen [i], i ? "src_simple" : "src_process", d.output_frames_gen) ;
	if (labs (gen [2] - gen [0]) > 1) vh_fail ("program", "%s: %ld frames through the callback, %ld through src_process", how, gen [2], gen [0]) ;
	fvec a = { o [2], (gen [2] < gen [0] ? gen [2] : gen [0]) * ch, 0 }, b = { o [3], (gen [2] < gen [0] ? gen [2] : gen [0]) * ch, 0 } ; cmp_streams (t, ch, r, &b, &a, 1, 1, "program", "plain build and the program's callback stream") ;
	for (int i = 0 ; i < 4 ; i++) gb_check (o [i], "output") ;
	vh_stat ("programs_run", 1) ; vh_sig (k * 7919ull + t * 1000003ull + ch * 31 + n * 131071 + 9) ;
	if (idx < 60) vh_sample ("program compiled with %s: %s ch=%d ratio=%.6g, %ld frames by each interface", how, conv_name [t], ch, r, gen [0]) ;
}
/* what exists, what is rejected and how it is called */
static void catalogue (rng *g, int b, long idx)
{	int rejected = 0 ;
	vh_note ("%s: catalogue", builds [b].name) ;
	for (int t = -2 ; t < 9 ; t++)
		for (int q = 0 ; q < 8 ; q++)
		{	int lim = builds [b].maxch, ch = q == 0 ? 1 : q == 1 ? 0 : q == 2 ? -1 : q == 3 ? lim : q == 4 ? lim + 1 : (int) rndi (g, 1, 400) ; int known = t >= 0 && t <= 4 && has (b, t), good = known && ch >= 1 && (t >= ZOH || ch <= lim) ;
			int how = (int) rndi (g, 0, 2), e = -1 ; float in [2000], out [2000] ; memset (in, 0, sizeof in) ;
			api = tab [b] ; SRC_STATE *s = NULL ;
			if (how == 2) { SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.input_frames = d.output_frames = 2 ; d.src_ratio = 1 ; e = src_simple (&d, t, ch) ; }
			else
			{	s = how ? src_callback_new (cb0, t, ch, &e, NULL) : src_new (t, ch, &e) ;
				if ((s != NULL) != good) vh_fail ("catalogue", "%s: converter %d with %d channels is %s", builds [b].name, t, ch, s ? "created" : "refused") ;
				}
			if (good && e) vh_fail ("catalogue", "%s: converter %d with %d channels: error %d", builds [b].name, t, ch, e) ;
			if (!good)
			{	int want = ch < 1 || known ? 11 : 10 ; if (e == 0) vh_fail ("catalogue", "%s: converter %d with %d channels: no error", builds [b].name, t, ch) ;
				/* both may be wrong; then either is fine */
				const char *m = src_strerror (e) ; if (!m || (!strcasestr (m, want == 11 ? "channel" : "converter") && (known || ch >= 1))) vh_fail ("catalogue", "%s: converter %d with %d channels: error %d (%s)", builds [b].name, t, ch, e, m ? m : "NULL") ;
				rejected ++ ;
				}
			if (s) { if (src_get_channels (s) != ch) vh_fail ("catalogue", "%s: %d channels instead of %d", builds [b].name, src_get_channels (s), ch) ; src_delete (s) ; }
			api = tab [0] ;
			}
	for (int e = -3 ; e < 40 ; e++)
	{	const char *m, *n ; BOTH (m = src_strerror (e), n = src_strerror (e)) ; if ((m == NULL) != (n == NULL) || (m && strcmp (m, n))) vh_fail ("catalogue", "%s: message %d differs", builds [b].name, e) ; }
	for (int t = 0 ; t < 9 ; t++) if (t > 4 || has (b, t))
	{	const char *m, *n ; BOTH (m = src_get_name (t), n = src_get_name (t)) ; if (n == NULL ? t <= 4 : (t > 4 || (m && strcmp (m, n)))) vh_fail ("catalogue", "%s: name %d is %s", builds [b].name, t, n ? n : "NULL") ;
		BOTH (m = src_get_description (t), n = src_get_description (t)) ; if (n == NULL ? t <= 4 : (t > 4 || (m && strcmp (m, n)))) vh_fail ("catalogue", "%s: description %d is %s", builds [b].name, t, n ? n : "NULL") ;
		}
	const char *m, *n ; BOTH (m = src_get_version (), n = src_get_version ()) ; if (!m || !n || strcmp (m, n)) vh_fail ("catalogue", "%s: version %s and %s", builds [b].name, m, n) ;
	for (int k = 0 ; k < 200 ; k++)
	{	double r ; if (k < 6) { static const double v [] = { 1 / 256.0, 256, NAN, INFINITY, 0, -1 } ; r = v [k] ; } else if (k & 1) { uint64_t u = rnd (g) ; memcpy (&r, &u, 8) ; } else r = nextafter (k & 2 ? 256 : 1 / 256.0, k & 4 ? 0 : 1000) ;
		int x, y ; BOTH (x = src_is_valid_ratio (r), y = src_is_valid_ratio (r)) ; if (!x != !y) vh_fail ("catalogue", "%s: src_is_valid_ratio (%.17g) is %d and %d", builds [b].name, r, x, y) ;
		}
	for (int k = 0 ; k < 10 ; k++) far_apart (g, b) ;
	for (int k = 0 ; k < 3 ; k++) published (g, b) ;
	vh_stat ("creations_refused", rejected) ; vh_stat ("catalogues", 1) ; vh_sig (b * 7919ull + 8) ; (void) idx ;
}
void vh_case (rng *g, long idx)
{	vh_cleanup (plain, NULL) ;
	int b = usable [1 + idx % (nusable - 1)], kind = (int) rndi (g, 0, 19), conv ;
	if (idx % 97 == 40) { program (g, (int) (idx / 97 % nusers), idx) ; return ; }
	if (idx < nusable) { catalogue (g, b, idx) ; return ; }
	if (kind == 0) { catalogue (g, b, idx) ; return ; }
	if (kind <= 2) { conversions (g, b, idx) ; return ; }
	do conv = pick_conv (g) ; while (!has (b, conv)) ;
	if (builds [b].maxch > 128 && kind < 10 && conv < ZOH) { many_channels (g, b, conv, idx) ; return ; }
	if (!builds [b].exact) { streams (g, b, conv, idx) ; return ; }
	twins (g, b, 0, conv, idx) ;
}

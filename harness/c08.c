/* C08: single faults in otherwise valid calls: error code (by its message), no output, no effect on the converter. */
#define _GNU_SOURCE
#include "script.h"
#include <limits.h>
#include <sys/mman.h>
const char *vh_prop = "C08" ;
long vh_ncases (int t) { return t ? 60000 : 12000 ; }
void vh_init (void) { script_init (0) ; }

static int has (const char *s, const char *w) { return s && strcasestr (s, w) != NULL ; }
static void want (int err, const char *word, const char *call)
{	if (err == 0) vh_fail ("not-rejected", "%s was accepted", call) ;
	const char *m = src_strerror (err) ;
	if (!m) vh_fail ("no-message", "%s: no message for error %d", call, err) ;
	if (!has (m, word) && !(!strcmp (word, "callback") && has (m, "call back"))) vh_fail ("wrong-error", "%s reported error %d (%s), expected the one about '%s'", call, err, m, word) ;
	vh_stat ("faults_reported", 1) ;
}
static void ok (int err, const char *call)
{	const char *m = src_strerror (err) ;
	if (err) vh_fail ("rejected", "%s: valid call rejected with error %d (%s)", call, err, m ? m : "NULL") ;
	vh_stat ("valid_accepted", 1) ;
}
static long cb0 (void *u, float **d) { (void) u ; (void) d ; return 0 ; }
static float bigbuf [4096] ;
static long cb1 (void *u, float **d) { ++ *(long *) u ; *d = bigbuf ; return 16 ; }
typedef struct { float *x ; long n ; } once ;
static long cb_once (void *u, float **d) { once *o = u ; long n = o->n ; o->n = 0 ; *d = o->x ; return n ; }
static int valid_ratio (double r) { return r >= 1.0 / 256.0 && r <= 256.0 ; }

static double wild_ratio (rng *g)
{	static const double fixed [] = { 0.0, -0.0, -1.0, 1.0, 256.0, 1 / 256.0, -256, 257, 1e300, -1e300, INFINITY, -INFINITY, NAN, 5e-324, 1e-10, 255.99999999999997, 256.00000000000006, 0.0039062500000000009, 0.0039062499999999996, 0.00390624, 256.0001, 2147483648.0, -1 / 256.0, 0.5, 2 } ;
	if (chance (g, 0.5)) return fixed [rndi (g, 0, sizeof fixed / sizeof *fixed - 1)] ;
	if (chance (g, 0.3)) { double b = chance (g, 0.5) ? 256 : 1 / 256.0 ; int n = rndi (g, 1, 5) ; double to = chance (g, 0.5) ? INFINITY : 0 ; while (n--) b = nextafter (b, to) ; return b ; }
	if (chance (g, 0.2)) { uint64_t b = rnd (g) ; double d ; memcpy (&d, &b, 8) ; return d ; }
	return (chance (g, 0.3) ? -1 : 1) * exp ((rndu (g) * 2 - 1) * 12) ;
}

static void fill (float *p, long n) { uint32_t *q = (uint32_t *) p ; for (long i = 0 ; i < n ; i++) q [i] = PATTERN ; }
static void untouched (const float *p, long n, const char *call) { const uint32_t *q = (const uint32_t *) p ; for (long i = 0 ; i < n ; i++) if (q [i] != PATTERN) vh_fail ("wrote-output", "%s wrote output float %ld although it failed", call, i) ; }

static void table (void)
{	int e ;
	SRC_DATA d ; float in [64], out [64] ; memset (&d, 0, sizeof d) ; memset (in, 0, sizeof in) ;
	vh_note ("fixed table") ;
	/* NULL handles */
	want (src_process (NULL, &d), "SRC_STATE", "src_process (NULL, ..)") ;
	want (src_process (NULL, NULL), "SRC_STATE", "src_process (NULL, NULL)") ;
	want (src_reset (NULL), "SRC_STATE", "src_reset (NULL)") ;
	want (src_set_ratio (NULL, 1.0), "SRC_STATE", "src_set_ratio (NULL, 1)") ;
	want (-src_get_channels (NULL), "SRC_STATE", "- src_get_channels (NULL)") ;
	if (src_callback_read (NULL, 1.0, 4, out) != 0) vh_fail ("read-null", "src_callback_read (NULL) is not 0") ;
	if (src_delete (NULL) != NULL) vh_fail ("delete-null", "src_delete (NULL)") ;
	e = 77 ; if (src_clone (NULL, &e) != NULL) vh_fail ("clone-null", "src_clone (NULL) gave a handle") ;
	want (e, "SRC_STATE", "src_clone (NULL, ..)") ;
	if (src_clone (NULL, NULL) != NULL) vh_fail ("clone-null", "src_clone (NULL, NULL)") ;
	src_error (NULL) ;
	e = 77 ; if (src_callback_new (NULL, LINEAR, 1, &e, NULL) != NULL) vh_fail ("cb-null", "src_callback_new with a NULL callback gave a handle") ;
	want (e, "callback", "src_callback_new (NULL, ..)") ;
	if (src_callback_new (NULL, LINEAR, 1, NULL, NULL) != NULL) vh_fail ("cb-null", "src_callback_new with a NULL callback gave a handle") ;
	want (src_simple (NULL, LINEAR, 1), "SRC_DATA", "src_simple (NULL, ..)") ;
	/* messages: every reportable code has one, no two codes share one */
	for (int i = 0 ; i <= 22 ; i++)
	{	const char *m = src_strerror (i) ;
		if (!m || !*m) vh_fail ("no-message", "no message for error code %d", i) ;
		for (int j = 0 ; j < i ; j++) if (!strcmp (m, src_strerror (j))) vh_fail ("same-message", "error codes %d and %d share the message '%s'", i, j, m) ;
		}
	src_strerror (-1) ; src_strerror (1000) ; src_strerror (INT_MIN) ;
	/* names */
	for (int t = -3 ; t < 40 ; t++)
	{	const char *n = src_get_name (t), *ds = src_get_description (t) ;
		if ((n == NULL) != (ds == NULL)) vh_fail ("names", "converter %d has a name but no description or the reverse", t) ;
		if (t >= MEDIUM && t <= 4)
		{	const char *w = t <= 2 ? "sinc" : t == ZOH ? "ZOH" : "linear" ;
			if (!has (n, w)) vh_fail ("names", "the name of converter %d is '%s'", t, n ? n : "NULL") ;
			if (t == 1 && (!has (n, "medium") || !has (ds, "medium"))) vh_fail ("names", "medium converter: %s / %s", n, ds) ;
			if (t == FASTEST && (!has (n, "fast") || !has (ds, "fast"))) vh_fail ("names", "fastest converter: %s / %s", n, ds) ;
			if (t == ZOH && !has (ds, "zero order hold")) vh_fail ("names", "ZOH description %s", ds) ;
			if (t == LINEAR && !has (ds, "linear")) vh_fail ("names", "linear description %s", ds) ;
			}
		else if (t != 0 && n != NULL) vh_fail ("names", "unknown converter %d has the name '%s'", t, n) ;
		}
	if (!src_get_version () || !has (src_get_version (), "libsamplerate")) vh_fail ("version", "src_get_version") ;
	for (int t = MEDIUM ; t <= 4 ; t++)
		for (int mode = 0 ; mode < 2 ; mode++)
		{	long calls = 0 ; int ch = 2 ;
			SRC_STATE *s = mode ? src_callback_new (cb1, t, ch, &e, &calls) : src_new (t, ch, &e) ;
			if (!s) vh_fail ("new-failed", "new") ;
			ok (e, "creation") ; ok (src_error (s), "src_error of a new converter") ;
			memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.input_frames = 8 ; d.output_frames = 8 ; d.src_ratio = 1 ;
			fill (out, 64) ;
			if (mode)
			{	want (src_process (s, &d), "mode", "src_process on a callback converter") ; untouched (out, 64, "src_process on a callback converter") ;
				if (calls) vh_fail ("callback-called", "a failing src_process called the callback") ;
				if (src_callback_read (s, 1.0, 0, out) != 0 || src_callback_read (s, 1.0, -5, out) != 0) vh_fail ("read-none", "reading 0 or fewer frames returned a non-zero count") ;
				if (src_callback_read (s, 0.001, 8, out) != 0) vh_fail ("read-ratio", "read with a bad ratio returned frames") ;
				want (src_error (s), "ratio outside", "src_callback_read with a bad ratio, as told by src_error") ;
				if (calls) vh_fail ("callback-called", "a read with a bad ratio called the callback") ;
				src_reset (s) ; ok (src_error (s), "src_error after reset") ;
				if (src_callback_read (s, 1.0, 8, NULL) != 0) vh_fail ("read-null", "read into NULL returned frames") ;
				want (src_error (s), "data_out", "src_callback_read into NULL, as told by src_error") ;
				untouched (out, 64, "failing reads") ;
				src_reset (s) ;
				if (src_callback_read (s, 1.0, 8, out) != 8) vh_fail ("read-after", "a good read after failed ones and a reset") ;
				ok (src_error (s), "src_error after a good read") ;
				}
			else
			{	if (src_callback_read (s, 1.0, 8, out) != 0) vh_fail ("mode", "src_callback_read on a process converter returned frames") ;
				want (src_error (s), "mode", "src_callback_read on a process converter, as told by src_error") ;
				untouched (out, 64, "src_callback_read on a process converter") ;
				want (src_process (s, NULL), "SRC_DATA pointer", "src_process (.., NULL)") ;
				d.data_in = NULL ; want (src_process (s, &d), "data_in", "src_process with NULL data_in") ; untouched (out, 64, "NULL data_in") ;
				d.data_in = in ; d.data_out = NULL ; want (src_process (s, &d), "data_out", "src_process with NULL data_out") ;
				/* NULL with a zero count is fine */
				d.data_out = out ; d.data_in = NULL ; d.input_frames = 0 ; ok (src_process (s, &d), "NULL data_in with zero frames") ;
				d.data_in = in ; d.input_frames = 8 ; d.data_out = NULL ; d.output_frames = 0 ; ok (src_process (s, &d), "NULL data_out with zero frames") ;
				d.data_in = NULL ; d.input_frames = 0 ; ok (src_process (s, &d), "NULL pointers with zero frames") ;
				}
			want (src_set_ratio (s, 0), "ratio outside", "src_set_ratio (0)") ;
			if (src_get_channels (s) != ch) vh_fail ("channels", "src_get_channels") ;
			vh_delete (s) ;
			/* src_simple reports what src_new and src_process report */
			memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.input_frames = 8 ; d.output_frames = 8 ; d.src_ratio = 1 ; fill (out, 64) ;
			d.data_in = NULL ; want (src_simple (&d, t, 2), "data_in", "src_simple with NULL data_in") ; d.data_in = in ;
			d.data_out = NULL ; want (src_simple (&d, t, 2), "data_out", "src_simple with NULL data_out") ; d.data_out = out ;
			d.src_ratio = 300 ; want (src_simple (&d, t, 2), "ratio outside", "src_simple with a bad ratio") ; d.src_ratio = 1 ;
			want (src_simple (&d, t, 0), "channel count", "src_simple with 0 channels") ;
			want (src_simple (&d, 17, 2), "converter", "src_simple with an unknown converter") ;
			untouched (out, 64, "failing src_simple") ;
			ok (src_simple (&d, t, 2), "src_simple") ;
			}
	vh_sig (1) ;
}

void vh_case (rng *g, long idx)
{	if (idx == 0) { table () ; return ; }
	int kind = rndi (g, 0, 9), e ;
	int conv = pick_conv (g) ;
	vh_steps (2000000) ;
	if (kind <= 1)
	{	/* ratios through every entry */
		double r = wild_ratio (g) ; int good = valid_ratio (r) ;
		float in [32], out [64] ; memset (in, 0, sizeof in) ; fill (out, 64) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
		vh_note ("%s ratio %.17g", conv_name [conv], r) ;
		d.data_in = in ; d.data_out = out ; d.input_frames = 8 ; d.output_frames = 8 ; d.src_ratio = r ; d.end_of_input = 1 ;
		if (src_is_valid_ratio (r) != (good ? 1 : 0)) vh_fail ("valid-ratio", "src_is_valid_ratio (%.17g) is %d", r, src_is_valid_ratio (r)) ;
		SRC_STATE *s = vh_new (conv, 2) ;
		if (chance (g, 0.5)) { SRC_DATA d1 = d ; d1.src_ratio = 1 ; d1.end_of_input = 0 ; src_process (s, &d1) ; fill (out, 64) ; }
		if (chance (g, 0.3)) { d.input_frames = 0 ; d.data_in = NULL ; }
		if (chance (g, 0.2)) { d.output_frames = 0 ; }
		e = src_process (s, &d) ;
		if (good) ok (e, "src_process with a valid ratio") ; else { want (e, "ratio outside", "src_process with an invalid ratio") ; untouched (out, 64, "src_process with a bad ratio") ; }
		e = src_set_ratio (s, r) ;
		if (good) ok (e, "src_set_ratio with a valid ratio") ; else want (e, "ratio outside", "src_set_ratio with an invalid ratio") ;
		vh_delete (s) ;
		d.input_frames = 8 ; d.data_in = in ; d.output_frames = 8 ; fill (out, 64) ;
		e = src_simple (&d, conv, 2) ;
		if (good) ok (e, "src_simple with a valid ratio") ; else { want (e, "ratio outside", "src_simple with an invalid ratio") ; untouched (out, 64, "src_simple with a bad ratio") ; }
		long calls = 0 ; s = src_callback_new (cb1, conv, 2, &e, &calls) ; ok (e, "src_callback_new") ; fill (out, 64) ;
		long n = src_callback_read (s, r, 4, out) ;
		if (good) { if (n != 4) vh_fail ("read-valid", "read with ratio %.17g returned %ld of 4", r, n) ; ok (src_error (s), "read with a valid ratio") ; }
		else { if (n || calls) vh_fail ("read-invalid", "read with ratio %.17g returned %ld, %ld callback calls", r, n, calls) ; want (src_error (s), "ratio outside", "read with an invalid ratio, src_error") ; untouched (out, 64, "read with a bad ratio") ; }
		vh_delete (s) ;
		uint64_t b ; memcpy (&b, &r, 8) ; vh_sig (b ^ conv) ;
		if (idx < 20) vh_sample ("ratio %.17g is %s everywhere", r, good ? "accepted" : "rejected") ;
		}
	else if (kind <= 3)
	{	/* creation: converter numbers and channel counts */
		static const int wc [] = { INT_MIN, -2, -1, 0, 5, 6, 7, 10, 100, 255, 256, 257, 258, 65537, INT_MAX } ;
		static const int wn [] = { INT_MIN, INT_MIN + 1, -256, -128, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 64, 127, 128, 129, 130, 200, 256, 257, 1000, 65536, 100000 } ;
		int bad = rndi (g, 0, 3), c = conv, n = rndi (g, 1, 128), ch_bad = 0 ;
		if (bad == 1) { c = chance (g, 0.7) ? wc [rndi (g, 0, 14)] : (int) rnd (g) ; if (c >= MEDIUM && c <= 4) bad = 0, c = conv ; }
		if (bad >= 2) { n = wn [rndi (g, 0, 25)] ; ch_bad = n < 1 || (conv <= FASTEST && n > 128) ; }
		int good = !(bad == 1) && !ch_bad ; const char *word = bad == 1 ? "converter" : "channel count" ;
		vh_note ("creation converter=%d channels=%d", c, n) ;
		float in [8], out [8] ; memset (in, 0, sizeof in) ;
		for (int how = 0 ; how < 4 ; how++)
		{	long calls = 0 ; e = 99 ;
			SRC_STATE *s = how == 0 ? src_new (c, n, &e) : how == 1 ? src_callback_new (cb0, c, n, &e, &calls) : how == 2 ? src_new (c, n, NULL) : src_callback_new (cb0, c, n, NULL, NULL) ;
			if (!good)
			{	if (s) vh_fail ("created", "a handle was returned") ;
				if (how < 2) want (e, word, "creation") ;
				}
			else
			{	if (!s) vh_fail ("not-created", "no handle (error %d)", e) ;
				if (how < 2) ok (e, "creation") ;
				if (src_get_channels (s) != n) vh_fail ("channels", "src_get_channels gives %d", src_get_channels (s)) ;
				ok (src_error (s), "src_error of a new converter") ;
				vh_delete (s) ;
				}
			}
		SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = in ; d.data_out = out ; d.src_ratio = 1 ;
		e = src_simple (&d, c, n) ;
		if (good) ok (e, "src_simple") ; else want (e, word, "src_simple") ;
		vh_sig (1000 + (uint64_t) (uint32_t) c * 1000003 + (uint32_t) n) ;
		}
	else if (kind == 4 && chance (g, 0.4))
	{	/* overlap of regions of any size, in address space that holds no memory: nothing may be read or written before it is reported */
		static char *res ; const size_t resn = (size_t) 96 << 30 ;
		if (!res) { res = mmap (NULL, resn, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) ; if (res == MAP_FAILED) { res = NULL ; vh_stat ("no_address_space", 1) ; return ; } }
		int ch = chance (g, 0.5) ? (int) rndi (g, 1, 8) : pick_channels (g, conv, conv >= ZOH ? 400 : 128) ;
		long max = (long) 9 << 30, nin = (long) exp (rndu (g) * log ((double) max / ch)), nout = (long) exp (rndu (g) * log ((double) max / ch)), a, b, pi = (long) 10 << 30, po ;
		if (chance (g, 0.3)) nin = ((long) rndi (g, 1, 4) << 31) / ch + rndi (g, -1, 2) ; if (chance (g, 0.3)) nout = ((long) rndi (g, 1, 4) << 31) / ch + rndi (g, -1, 2) ;
		if (nin < 1) nin = 1 ; if (nout < 1) nout = 1 ; a = nin * ch ; b = nout * ch ;
		po = pi - b + 1 + (long) (rndu (g) * (double) (a + b - 2)) ;
		if (chance (g, 0.3)) po = pi + a - rndi (g, 1, 3) ; else if (chance (g, 0.3)) po = pi - b + rndi (g, 1, 3) ;
		if (! (po < pi + a && pi < po + b)) po = pi ;
		vh_note ("%s ch=%d input floats [%ld,%ld) output floats [%ld,%ld)", conv_name [conv], ch, pi, pi + a, po, po + b) ;
		SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = (float *) res + pi ; d.data_out = (float *) res + po ; d.input_frames = nin ; d.output_frames = nout ; d.src_ratio = 1 ;
		SRC_STATE *s = vh_new (conv, ch) ; e = src_process (s, &d) ; vh_delete (s) ; want (e, "overlap", "large overlapping regions") ;
		vh_sig (8888 + conv + 16 * (uint64_t) ch + 4096 * (uint64_t) (64 - __builtin_clzl (nin)) + 262144ull * (64 - __builtin_clzl (nout)) + ((uint64_t) (po < pi) << 40)) ;
		}
	else if (kind <= 6)
	{	/* overlap of input and output regions inside one buffer */
		int ch = chance (g, 0.5) ? 1 : (int) rndi (g, 2, 9) ; long nin = rndi (g, 0, 40), nout = rndi (g, 0, 40) ;
		if (chance (g, 0.1)) nin = 0 ; if (chance (g, 0.1)) nout = 0 ;
		long a = nin * ch, b = nout * ch, pi = 1500, po ;
		switch (rndi (g, 0, 5))
		{	case 0 : po = pi + a + rndi (g, -2, 2) ; break ;		/* output right behind the input */
			case 1 : po = pi - b + rndi (g, -2, 2) ; break ;		/* right before */
			case 2 : po = pi + rndi (g, -2, 2) ; break ;
			case 3 : po = pi + rndi (g, 0, a + 1) ; break ;
			case 4 : po = pi + a - b + rndi (g, -2, 2) ; break ;
			default : po = pi + rndi (g, -700, 700) ; break ;
			}
		int share = a > 0 && b > 0 && po < pi + a && pi < po + b ;
		vh_note ("%s ch=%d input floats [%ld,%ld) output floats [%ld,%ld)", conv_name [conv], ch, pi, pi + a, po, po + b) ;
		fill (bigbuf, 4096) ; for (long i = 0 ; i < a ; i++) bigbuf [pi + i] = noise_at (idx, i) ;
		static float copy [4096] ; memcpy (copy, bigbuf, sizeof copy) ;
		SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = bigbuf + pi ; d.data_out = bigbuf + po ; d.input_frames = nin ; d.output_frames = nout ; d.src_ratio = chance (g, 0.5) ? 1 : pick_ratio_range (g, 0.2, 5) ;
		d.end_of_input = (int) rndi (g, 0, 1) ;
		SRC_STATE *s = NULL ;
		if (chance (g, 0.3)) e = src_simple (&d, conv, ch) ;
		else if (chance (g, 0.35))
		{	/* the input region is what the callback supplies */
			once o = { bigbuf + pi, nin } ; e = -1 ; s = src_callback_new (cb_once, conv, ch, &e, &o) ; ok (e, "src_callback_new") ;
			long n = src_callback_read (s, d.src_ratio, nout, bigbuf + po) ; e = src_error (s) ; d.output_frames_gen = n ; vh_stat ("geometries_read", 1) ;
			if (n < 0 || n > nout || (e && n)) vh_fail ("read-range", "src_callback_read returned %ld of %ld, error %d", n, nout, e) ;
			}
		else { s = vh_new (conv, ch) ; e = src_process (s, &d) ; }
		if (share)
		{	want (e, "overlap", "overlapping regions") ;
			if (memcmp (copy, bigbuf, sizeof copy)) vh_fail ("wrote-output", "memory changed by a failing call") ;
			}
		else
		{	ok (e, "disjoint regions") ;
			for (long i = 0 ; i < 4096 ; i++)
				if ((i < po || i >= po + d.output_frames_gen * ch) && memcmp (&copy [i], &bigbuf [i], 4)) vh_fail ("wrote-elsewhere", "float %ld written outside the output", i) ;
			}
		if (s) vh_delete (s) ;
		vh_sig (7777 + share + 2 * conv + 16 * (po - pi + 2000) + 65536 * a + (b << 32)) ;
		if (idx < 20) vh_sample ("input floats [%ld,%ld) and output floats [%ld,%ld): %s", pi, pi + a, po, po + b, share ? "overlap reported" : "accepted") ;
		}
	else if (kind == 7 && chance (g, 0.4))
	{	/* negative frame counts are counts of zero, wherever they turn up in a stream */
		int ch = pick_channels (g, conv, 128), calls = (int) rndi (g, 2, 12), neg = 0, kinds = 0 ; double r = pick_ratio_range (g, 0.2, 5) ;
		vh_note ("%s ch=%d r=%.17g, %d calls, negative frame counts", conv_name [conv], ch, r, calls) ;
		SRC_STATE *st [2] = { vh_new (conv, ch), vh_new (conv, ch) } ; int simple = chance (g, 0.1) ; long pos = 0 ;
		for (int i = 0 ; i < calls ; i++)
		{	long nin = rndi (g, 1, 60), nout = rndi (g, 1, 90), gen [2] ; float *in = gb_alloc (nin * ch), *out [2] = { gb_alloc (nout * ch), gb_alloc (nout * ch) } ;
			int what = rndi (g, 0, 6), eoi = i >= calls - 3 && rndi (g, 0, 1) ; SRC_DATA d [2] ;
			static const long negs [] = { -1, -2, -3, -7, -128, -1000, -2147483647L - 1, -4294967295L, -4294967296L, -4294967297L, LONG_MIN / 4, LONG_MIN / 2, LONG_MIN + 1, LONG_MIN } ;
			long ni = negs [rndi (g, 0, 13)], no = negs [rndi (g, 0, 13)] ;
			for (long k = 0 ; k < nin * ch ; k++) in [k] = noise_at (idx, pos * ch + k) ;
			for (int j = 0 ; j < 2 ; j++)
			{	memset (&d [j], 0, sizeof d [j]) ; fill (out [j], nout * ch) ; d [j].data_in = in ; d [j].data_out = out [j] ; d [j].src_ratio = r ; d [j].end_of_input = eoi ;
				d [j].input_frames = nin ; d [j].output_frames = nout ; d [j].input_frames_used = d [j].output_frames_gen = -77 ;
				if (what & 1) d [j].input_frames = j ? ni : 0 ;
				if (what & 2) d [j].output_frames = j ? no : 0 ;
				}
			if (what == 5) for (int j = 0 ; j < 2 ; j++) d [j].data_in = NULL ;
			if (what == 6) for (int j = 0 ; j < 2 ; j++) d [j].data_out = NULL ;
			if (what == 3) d [1].data_in = chance (g, 0.5) ? out [1] : NULL ;		/* no frames: nothing to overlap, nothing needed */
			for (int j = 0 ; j < 2 ; j++)
			{	ok (simple ? src_simple (&d [j], conv, ch) : src_process (st [j], &d [j]), j ? "a call with a negative frame count" : "a call with zero frames") ;
				gen [j] = d [j].output_frames_gen ; untouched (out [j] + gen [j] * ch, (nout - gen [j]) * ch, "a call beyond the frames it reports") ;
				}
			if (gen [0] != gen [1] || d [0].input_frames_used != d [1].input_frames_used)
				vh_fail ("negative-count", "a count of %s gives used=%ld gen=%ld, a count of zero used=%ld gen=%ld", what & 1 ? "negative input frames" : "negative output frames", d [1].input_frames_used, gen [1], d [0].input_frames_used, gen [0]) ;
			if (memcmp (out [0], out [1], 4 * gen [0] * ch)) vh_fail ("negative-count", "the stream differs after negative frame counts") ;
			pos += d [0].input_frames_used ; if (what & 3) neg ++ ; kinds |= 1 << what ;
			gb_free (in) ; gb_free (out [0]) ; gb_free (out [1]) ;
			}
		vh_delete (st [0]) ; vh_delete (st [1]) ; vh_stat ("negative_counts", neg) ;
		vh_sig (999 + conv + 16 * ch + 4096 * kinds + 524288ull * calls + ((uint64_t) simple << 40)) ;
		}
	else
	{	/* failing calls in the middle of a stream leave no trace */
		int ch = pick_channels (g, conv, 128), cb = chance (g, 0.35), n, inj = 0 ;
		static op ops [60] ; subj a, b ; blog la = { 0 }, lb = { 0 }, junk = { 0 } ;
		n = gen_script (g, conv, ch, cb, (int) rndi (g, 3, 40), vh_light ? 5e4 : 2e5, SC_NOERR, ops) ;
		vh_note ("%s ch=%d %s, %d operations with failing calls in between", conv_name [conv], ch, cb ? "callback" : "process", n) ;
		script_log_error = 0 ;
		subj_init (&a, g, conv, ch, cb) ; b = a ; subj_open (&b) ;
		for (int i = 0 ; i < n ; i++)
		{	run_ops (&a, ops, i, i + 1, &la) ;
			for (int k = (int) rndi (g, 0, 3) ; k > 0 ; k--)
			{	float in [8] = { 1, 2, 3, 4, 5, 6, 7, 8 }, *out = gb_alloc (16 * ch) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
				d.data_in = in ; d.data_out = out ; d.src_ratio = chance (g, 0.5) ? 1 : pick_ratio (g) ; d.end_of_input = (int) rndi (g, 0, 1) ; d.input_frames = 8 / ch ; d.output_frames = 16 ;
				double badr = wild_ratio (g) ; while (valid_ratio (badr)) badr = wild_ratio (g) ;
				int f = rndi (g, 0, 6) ; inj ++ ;
				long cp = b.cpos, cc = b.ccount ;
				if (b.cb) switch (f)
				{	case 0 : case 1 : case 2 : if (src_callback_read (b.st, badr, 16, out)) vh_fail ("read", "read with a bad ratio returned frames") ; want (src_error (b.st), "ratio outside", "read with a bad ratio") ; break ;
					case 3 : want (src_set_ratio (b.st, badr), "ratio outside", "src_set_ratio") ; break ;
					case 4 : if (src_callback_read (b.st, 1.0, -rndi (g, 0, 1000), out)) vh_fail ("read", "read of no frames returned frames") ; break ;
					default : want (src_process (b.st, &d), "mode", "src_process on a callback converter") ; break ;
					}
				else switch (f)
				{	case 0 : d.src_ratio = badr ; want (src_process (b.st, &d), "ratio outside", "src_process with a bad ratio") ; break ;
					case 1 : d.data_in = NULL ; d.input_frames = 3 ; want (src_process (b.st, &d), "data_in", "src_process with NULL input") ; break ;
					case 2 : d.data_out = NULL ; want (src_process (b.st, &d), "data_out", "src_process with NULL output") ; break ;
					case 3 : want (src_process (b.st, NULL), "SRC_DATA pointer", "src_process with NULL SRC_DATA") ; break ;
					case 4 : want (src_set_ratio (b.st, badr), "ratio outside", "src_set_ratio") ; break ;
					case 5 : if (src_callback_read (b.st, 1.0, 16, out)) vh_fail ("read", "read on a process converter returned frames") ; want (src_error (b.st), "mode", "read on a process converter") ; break ;
					default : d.data_in = out + 1 ; d.input_frames = 8 ; if (8 * ch < 2) d.input_frames = 8 ; want (src_process (b.st, &d), "overlap", "overlapping buffers") ; break ;
					}
				if (b.cpos != cp || b.ccount != cc) vh_fail ("callback-called", "a failing call called the callback") ;
				untouched (out, 16 * ch, "a failing call") ; gb_free (out) ;
				}
			run_ops (&b, ops, i, i + 1, &lb) ;
			if (la.n != lb.n || memcmp (la.v, lb.v, la.n)) vh_fail ("disturbed", "operation %d after failing calls gives a different result than without them", i) ;
			}
		if (src_get_channels (b.st) != ch) vh_fail ("channels", "src_get_channels") ;
		vh_delete (a.st) ; vh_delete (b.st) ; vh_stat ("injected_failures", inj) ; vh_stat ("frames_compared", la.frames) ;
		vh_sig (script_sig (ops, n) + conv + 10 * ch) ;
		if (idx < 20) vh_sample ("%s ch=%d %s: %d failing calls among %d operations, %ld output frames bit-identical to the undisturbed run", conv_name [conv], ch, cb ? "callback" : "process", inj, n, la.frames) ;
		log_free (&la) ; log_free (&lb) ; log_free (&junk) ;
		}
}

/* C17: counts beyond 2^31 samples in one call and streams of very many frames.  Input is a period of memory mapped again and
** again, so that gigabytes of address space cost megabytes; output likewise (only the last period stays readable). */
#define _GNU_SOURCE
#include "vh.h"
#include <sys/mman.h>
#include <unistd.h>
const char *vh_prop = "C17" ;
long vh_ncases (int t) { return t ? 700 : 280 ; }
typedef struct { float *p ; size_t bytes ; long period ; } ring ;
static ring maps [4] ; static int nmaps ;
static void unmap_all (void *u) { (void) u ; while (nmaps) { nmaps -- ; munmap (maps [nmaps].p, maps [nmaps].bytes) ; } }
/* total floats of address space over one period of floats (a multiple of 1024), inaccessible pages on both sides */
static float *mirror (long total, long period)
{	int fd = memfd_create ("c17", 0) ; size_t pb = period * 4, tb = ((size_t) total * 4 + pb - 1) / pb * pb ;
	if (fd < 0 || ftruncate (fd, pb)) { perror ("memfd") ; exit (2) ; }
	char *b = mmap (NULL, tb + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) ;
	if (b == MAP_FAILED) { perror ("mmap") ; exit (2) ; }
	for (size_t o = 0 ; o < tb ; o += pb)
		if (mmap (b + 65536 + o, pb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror ("mmap") ; exit (2) ; }
	close (fd) ;
	maps [nmaps].p = (float *) b ; maps [nmaps].bytes = tb + 2 * 65536 ; maps [nmaps++].period = period ;
	return (float *) (b + 65536) ;
}
static long P ; static int M ;	/* input period in frames; modulus of the ramp in it */
static float *input (long frames, int ch, int conv)
{	P = ch <= 4 ? 1 << 20 : 1 << 17 ; M = conv == ZOH ? (int) P : 4096 ;
	float *x = mirror (frames * ch, P * ch) ;
	for (long i = 0 ; i < P ; i++)
		for (int c = 0 ; c < ch ; c++) x [i * ch + c] = (float) ((i + 37 * c) % M) ;
	return x ;
}
/* is y a possible output of channel c at position p, which is known to within err? */
static void check (int conv, int c, long double p, long N, double err, float y, long k, const char *what)
{	if (conv == ZOH)
	{	for (int t = -1 ; t <= 1 ; t++)
		{	long i = (long) floorl (p + t * err) - 1 ; if (i < 0) i = 0 ; if (i >= N) i = N - 1 ;
			if (y == (float) ((i + 37 * c) % M)) return ;
			}
		vh_fail ("misaligned", "%s: frame %ld at position %.6Lf, channel %d has %g instead of %ld", what, k, p, c, y, ((long) floorl (p) - 1 + 37 * c) % M) ;
		}
	long double q = p - 1 ; if (q < 0) q = 0 ;
	long i = (long) floorl (q) ; double f = (double) (q - i), e = (double) ((i + 37 * c) % M) ;
	if (e < 2 || e > M - 3) return ;	/* the ramp wraps around here */
	if (fabs (y - (e + f)) > err + 1.5e-3) vh_fail ("misaligned", "%s: frame %ld at position %.6Lf, channel %d has %.9g instead of %.9g", what, k, p, c, y, e + f) ;
}
static double step_err (double k, double r) { return k * 2.3e-16 * (3 + 1 / r) + 1e-12 ; }
typedef struct { float *x ; long N, given ; int calls, ended ; } hcb ;
static long huge_cb (void *u, float **d) { hcb *h = u ; vh_step () ; h->calls ++ ; if (h->given) { h->ended ++ ; return 0 ; } h->given = h->N ; *d = h->x ; return h->N ; }

/* much input presented, little output asked for: the same as with just enough input */
static void huge_input_small_output (rng *g)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, 128) ; double r = pick_ratio_range (g, 0.02, 256) ;
	static const long big [] = { (1L << 31) - 1, 1L << 31, (1L << 31) + 12345, 1L << 32, (1L << 32) + 777, 3000000000L, (1L << 32) + (1L << 31) + 99 } ;
	long N = big [rndi (g, 0, 6)] / ch + rndi (g, 0, 3), calls = rndi (g, 1, 6), pos1 = 0, pos2 = 0 ; int api = (int) rndi (g, 0, 2) ;
	vh_note ("huge input, little output: %s ch=%d ratio=%.17g frames=%ld (%.3g samples)", conv_name [conv], ch, r, N, (double) N * ch) ;
	P = 1 << 17 ; float *x = mirror (N * ch, P * ch) ; for (long i = 0 ; i < P * ch ; i++) x [i] = noise_at (99, i) ;
	vh_steps (2000) ;
	long outf = rndi (g, 1, 400) ; if (outf * conv_cost (conv, ch, r) > 3e6) outf = (long) (3e6 / conv_cost (conv, ch, r)) + 1 ;
	float *o1 = gb_alloc (outf * ch), *o2 = gb_alloc (outf * ch) ;
	if (api == 0)
	{	/* a single src_simple call, truncated by the room for output */
		SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = x ; d.data_out = o1 ; d.input_frames = N ; d.output_frames = outf ; d.src_ratio = r ;
		int e = src_simple (&d, conv, ch) ; if (e || d.output_frames_gen != outf) vh_fail ("huge-simple", "src_simple with %ld frames: error %d, %ld of %ld frames", N, e, d.output_frames_gen, outf) ;
		SRC_DATA q ; memset (&q, 0, sizeof q) ; q.data_in = x ; q.data_out = o2 ; q.input_frames = 3 * conv_buflen (conv) + (long) (outf / r) + 1000 ; q.output_frames = outf ; q.src_ratio = r ;
		if (q.input_frames * ch < (1L << 30) && q.input_frames < N)
		{	e = src_simple (&q, conv, ch) ; if (e || q.output_frames_gen != outf || memcmp (o1, o2, outf * ch * 4)) vh_fail ("huge-simple", "src_simple with %ld and %ld frames differ (error %d, %ld frames)", N, q.input_frames, e, q.output_frames_gen) ;
			if (q.input_frames_used != d.input_frames_used) vh_fail ("huge-simple", "src_simple with %ld frames used %ld, with %ld frames %ld", N, d.input_frames_used, q.input_frames, q.input_frames_used) ;
			}
		vh_stat ("frames_checked", outf * ch) ;
		}
	else if (api == 1)
	{	hcb h1 = { x, N, 0, 0, 0 }, h2 = { x, 3 * conv_buflen (conv) + (long) (6 * outf / r) + 1000, 0, 0, 0 } ; int e ; if (h2.N > N) h2.N = N ;
		SRC_STATE *s1 = src_callback_new (huge_cb, conv, ch, &e, &h1), *s2 = src_callback_new (huge_cb, conv, ch, &e, &h2) ;
		for (long i = 0 ; i < calls ; i++)
		{	long a = src_callback_read (s1, r, outf, o1), b = src_callback_read (s2, r, outf, o2) ;
			if (a != outf || b != outf) vh_fail ("huge-callback", "reads after a block of %ld frames returned %ld and %ld of %ld (errors %d %d)", N, a, b, outf, src_error (s1), src_error (s2)) ;
			if (memcmp (o1, o2, outf * ch * 4)) vh_fail ("huge-callback", "reads after a block of %ld frames differ from those after a small block", N) ;
			}
		if (h1.calls != 1) vh_fail ("huge-callback", "the callback was called %d times though it had supplied %ld frames", h1.calls, N) ;
		src_delete (s1) ; src_delete (s2) ; vh_stat ("frames_checked", calls * outf * ch) ;
		}
	else
	{	SRC_STATE *s1 = vh_new (conv, ch), *s2 = vh_new (conv, ch) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
		for (long i = 0 ; i < calls ; i++)
		{	int eoi = chance (g, 0.3) ;
			d.data_in = x + pos1 * ch ; d.data_out = o1 ; d.input_frames = N - pos1 ; d.output_frames = outf ; d.src_ratio = r ; d.end_of_input = eoi ;
			int e = src_process (s1, &d) ; if (e || d.output_frames_gen != outf || d.input_frames_used < 0 || d.input_frames_used > N - pos1) vh_fail ("huge-process", "src_process with %ld frames: error %d, used %ld, %ld of %ld frames", N - pos1, e, d.input_frames_used, d.output_frames_gen, outf) ;
			long u = d.input_frames_used ; pos1 += u ;
			d.data_in = x + pos2 * ch ; d.data_out = o2 ; d.input_frames = 3 * conv_buflen (conv) + (long) (outf / r) + 1000 ; if (d.input_frames > N - pos2) d.input_frames = N - pos2 ;
			e = src_process (s2, &d) ; if (e || d.output_frames_gen != outf) vh_fail ("huge-process", "comparison: error %d", e) ; pos2 += d.input_frames_used ;
			if (u != d.input_frames_used || memcmp (o1, o2, outf * ch * 4)) vh_fail ("huge-process", "src_process with %ld and %ld frames presented differ (used %ld and %ld)", N - pos1 + u, d.input_frames, u, d.input_frames_used) ;
			}
		src_delete (s1) ; src_delete (s2) ; vh_stat ("frames_checked", calls * outf * ch) ;
		}
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + 17 * api) ;
	if (vh_idx < 20) vh_sample ("huge input, little output: %s ch=%d ratio=%.6g, %.4g samples presented", conv_name [conv], ch, r, (double) N * ch) ;
}
/* little input, room for more than 2^31 samples: the same as with just enough room */
static void huge_room (rng *g)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, 128), api = (int) rndi (g, 0, 2) ; double r = pick_ratio (g) ;
	static const long big [] = { (1L << 31) - 1, 1L << 31, (1L << 31) + 12345, 1L << 32, (1L << 32) + 777, 3000000000L, (1L << 32) + (1L << 31) + 99 } ;
	long F = big [rndi (g, 0, 6)] / ch + rndi (g, 0, 3), N = rndi (g, 1, 3000) ;
	while (N > 1 && N * r * conv_cost (conv, ch, r) > 1e7) N /= 2 ;
	vh_note ("little input, huge room: %s ch=%d ratio=%.17g frames=%ld room for %ld frames (%.3g samples) api=%d", conv_name [conv], ch, r, N, F, (double) F * ch, api) ;
	vh_steps (2000) ;
	P = 1 << 17 ; float *o = mirror (F * ch, (1L << 20) * ch), *x = gb_alloc (N * ch) ; for (long i = 0 ; i < N * ch ; i++) x [i] = noise_at (vh_idx, i) ;
	long room = (long) (N * r) + 10, gen ; float *q = gb_alloc (room * ch) ; SRC_DATA d ; int e ; memset (&d, 0, sizeof d) ;
	d.data_in = x ; d.input_frames = N ; d.data_out = q ; d.output_frames = room ; d.src_ratio = r ;
	e = src_simple (&d, conv, ch) ; if (e || d.input_frames_used != N) vh_fail ("huge-room", "comparison: error %d", e) ; gen = d.output_frames_gen ;
	memset (&d, 0, sizeof d) ; d.data_in = x ; d.input_frames = N ; d.data_out = o ; d.output_frames = F ; d.src_ratio = r ;
	long n, used = N ;
	if (api == 0) { e = src_simple (&d, conv, ch) ; n = d.output_frames_gen ; used = d.input_frames_used ; }
	else if (api == 1)
	{	SRC_STATE *s = vh_new (conv, ch) ; long cut = rndi (g, 0, N) ; d.input_frames = cut ; e = src_process (s, &d) ; n = d.output_frames_gen ; used = d.input_frames_used ;
		if (!e) { if (used != cut) vh_fail ("huge-room", "%ld of %ld frames used though there is room for %ld", used, cut, F) ;
			d.data_in = x + cut * ch ; d.input_frames = N - cut ; d.data_out = o + n * ch ; d.output_frames = F - n ; d.end_of_input = 1 ; e = src_process (s, &d) ; n += d.output_frames_gen ; used += d.input_frames_used ; }
		src_delete (s) ;
		}
	else { hcb h = { x, N, 0, 0, 0 } ; SRC_STATE *s = src_callback_new (huge_cb, conv, ch, &e, &h) ; n = src_callback_read (s, r, F, o) ; e = src_error (s) ; src_delete (s) ; }
	if (e) vh_fail ("huge-room", "error %d", e) ;
	if (used != N) vh_fail ("huge-room", "%ld of %ld frames used", used, N) ;
	if (labs (n - gen) > (api ? 1 : 0)) vh_fail ("huge-room", "%ld frames with room for %ld, %ld with room for %ld", n, F, gen, room) ;
	fvec a = { o, n * ch, 0 }, b = { q, gen * ch, 0 } ; cmp_streams (conv, ch, r, &a, &b, 1, 1, "huge-room", "with huge and with just enough room") ;
	vh_stat ("frames_checked", n) ;
	/* a ratio on its way to another one over so many frames hardly moves */
	double r2 = pick_ratio_range (g, r > 4 / 256. ? r / 4 : 1 / 256., r < 64 ? 4 * r : 256) ;
	SRC_STATE *s = vh_new (conv, ch) ; src_set_ratio (s, r) ; memset (&d, 0, sizeof d) ; d.data_in = x ; d.input_frames = N ; d.data_out = o ; d.output_frames = F ; d.src_ratio = r2 ; d.end_of_input = 1 ;
	e = src_process (s, &d) ; if (e || d.input_frames_used != N) vh_fail ("huge-room", "varying ratio: error %d, %ld of %ld frames used", e, d.input_frames_used, N) ;
	long double p = 0 ; long k = 0 ; while (p < N) { p += 1 / (r + k * ((long double) r2 - r) / F) ; k ++ ; }
	if (labs (d.output_frames_gen - k) > 2) vh_fail ("huge-room", "ratio moving from %.17g to %.17g over %ld frames: %ld frames from %ld instead of %ld", r, r2, F, d.output_frames_gen, N, k) ;
	src_delete (s) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + 17 * api + 4) ;
	if (vh_idx < 60) vh_sample ("little input, huge room: %s ch=%d ratio=%.6g, %ld frames in, %ld out, room for %.4g samples", conv_name [conv], ch, r, N, n, (double) F * ch) ;
}
/* more than 2^31 samples really consumed in one call */
static void huge_consumed (rng *g, int conv, int ch, double r, int api)
{	long N = (((1L << 31) + rndi (g, 1, 200000000)) / ch) + 1 ; if (ch > 1 && chance (g, 0.3)) N = ((1L << 32) + 5000000) / ch ;
	vh_note ("huge input consumed: %s ch=%d ratio=%.17g frames=%ld (%.4g samples) api=%d", conv_name [conv], ch, r, N, (double) N * ch, api) ;
	float *x = conv >= ZOH ? input (N, ch, conv) : NULL ; double f = 0 ;
	if (!x)
	{	P = ch <= 4 ? 1 << 20 : 1 << 17 ; x = mirror (N * ch, P * ch) ; f = floor (0.3 * r * P * (0.2 + 0.8 * rndu (g))) / P ;
		for (long i = 0 ; i < P ; i++) for (int c = 0 ; c < ch ; c++) x [i * ch + c] = (float) sin (2 * M_PI * fmod (f * i, 1.0) + c) ;
		}
	long room = (long) (N * (long double) r) + 10, gen, used = N ; float *o = gb_alloc (room * ch) ;
	vh_steps (100000) ;
	if (api == 0)
	{	SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = x ; d.data_out = o ; d.input_frames = N ; d.output_frames = room ; d.src_ratio = r ;
		int e = src_simple (&d, conv, ch) ; if (e) vh_fail ("huge-simple", "error %d", e) ; gen = d.output_frames_gen ; used = d.input_frames_used ;
		}
	else if (api == 1)
	{	SRC_STATE *s = vh_new (conv, ch) ; SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = x ; d.data_out = o ; d.input_frames = N ; d.output_frames = room ; d.src_ratio = r ;
		int e = src_process (s, &d) ; if (e) vh_fail ("huge-process", "error %d", e) ; gen = d.output_frames_gen ; used = d.input_frames_used ;
		if (used == N)
		{	d.data_in = NULL ; d.input_frames = 0 ; d.end_of_input = 1 ; d.data_out = o + gen * ch ; d.output_frames = room - gen ;
			e = src_process (s, &d) ; if (e) vh_fail ("huge-process", "error %d at the end", e) ; gen += d.output_frames_gen ;
			}
		src_delete (s) ;
		}
	else
	{	hcb h = { x, N, 0, 0, 0 } ; int e ; SRC_STATE *s = src_callback_new (huge_cb, conv, ch, &e, &h) ;
		long a = src_callback_read (s, r, room / 2, o) ; if (a != room / 2) vh_fail ("huge-callback", "read %ld of %ld, error %d", a, room / 2, src_error (s)) ;
		gen = a + src_callback_read (s, r, room - a, o + a * ch) ; if (!h.ended) used = -1 ;
		src_delete (s) ;
		}
	gb_check (o, "output") ;
	if (used != N) vh_fail ("huge-used", "%ld of %ld frames consumed", used, N) ;
	long double want = N * (long double) r ;
	if (fabsl (gen - want) > 1.0001L) vh_fail ("huge-total", "%ld frames from %ld at ratio %.17g, expected %.3Lf", gen, N, r, want) ;
	long checked = 0 ;
	for (long k = 0 ; k < gen ; k++)
	{	int c = ch > 1 ? (int) rndi (g, 0, ch - 1) : 0 ; long double p = k / (long double) r ;
		if (conv >= ZOH) check (conv, c, p, N, step_err (k, r), o [k * ch + c], k, "huge input") ;
		else
		{	if (p < 50 * 256 || p > N - 50 * 256) continue ;
			double e = sin (2 * M_PI * (double) fmodl (f * p, 1.0L) + c) ; if (fabs (e - o [k * ch + c]) > 2e-3) vh_fail ("misaligned", "huge input: frame %ld of %ld at position %.3Lf, channel %d: %.7g instead of %.7g", k, gen, p, c, o [k * ch + c], e) ;
			}
		checked ++ ;
		}
	vh_stat ("frames_checked", checked) ; vh_stat ("huge_samples_consumed", (double) N * ch) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + 1000 * api + 1) ;
	vh_sample ("huge input consumed: %s ch=%d ratio=%.6g, %.4g samples in, %ld frames out, %ld checked", conv_name [conv], ch, r, (double) N * ch, gen, checked) ;
}
/* more than 2^31 samples generated in one call */
static void huge_produced (rng *g, int conv, int ch, double r, int api)
{	long want = ((1L << 31) + rndi (g, 1, 100000000)) / ch + 1, N = (long) (want / r) + 2 ;
	vh_note ("huge output: %s ch=%d ratio=%.17g frames=%ld in, %.4g samples out", conv_name [conv], ch, r, N, (double) want * ch) ;
	P = N ; M = conv == ZOH ? 1 << 20 : 4096 ;
	float *x = gb_alloc (N * ch) ; for (long i = 0 ; i < N ; i++) for (int c = 0 ; c < ch ; c++) x [i * ch + c] = (float) ((i + 37 * c) % M) ;
	long room = (long) (N * (long double) r) + 10, OP = 1 << 18 ; float *o = mirror (room * ch, OP * ch) ; vh_steps (1000) ;
	long gen, used ; SRC_DATA d ; memset (&d, 0, sizeof d) ; d.data_in = x ; d.data_out = o ; d.input_frames = N ; d.output_frames = room ; d.src_ratio = r ; int e ;
	if (api == 0) { e = src_simple (&d, conv, ch) ; gen = d.output_frames_gen ; used = d.input_frames_used ; }
	else if (api == 1) { SRC_STATE *s = vh_new (conv, ch) ; d.end_of_input = 1 ; e = src_process (s, &d) ; gen = d.output_frames_gen ; used = d.input_frames_used ; src_delete (s) ; }
	else { hcb h = { x, N, 0, 0, 0 } ; SRC_STATE *s = src_callback_new (huge_cb, conv, ch, &e, &h) ; gen = src_callback_read (s, r, room, o) ; e = src_error (s) ; used = h.ended ? N : -1 ; src_delete (s) ; }
	if (e) vh_fail ("huge-output", "error %d", e) ;
	if (used != N) vh_fail ("huge-used", "%ld of %ld frames consumed", used, N) ;
	if (fabsl (gen - N * (long double) r) > 1.0001L) vh_fail ("huge-total", "%ld frames from %ld at ratio %.17g, expected %.3Lf", gen, N, r, N * (long double) r) ;
	long checked = 0 ;
	for (long k = gen > OP ? gen - OP : 0 ; k < gen ; k++) { int c = ch > 1 ? (int) rndi (g, 0, ch - 1) : 0 ; check (conv, c, k / (long double) r, N, step_err (k, r), o [k * ch + c], k, "huge output") ; checked ++ ; }
	vh_stat ("frames_checked", checked) ; vh_stat ("huge_samples_produced", (double) gen * ch) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + 1000 * api + 2) ;
	vh_sample ("huge output: %s ch=%d ratio=%.6g, %ld frames in, %.4g samples out, last %ld frames checked", conv_name [conv], ch, r, N, (double) gen * ch, checked) ;
}
/* many calls, many frames: no drift */
static void long_stream (rng *g)
{	int conv = pick_conv (g), ch = chance (g, 0.6) ? 1 : (int) rndi (g, 2, 3) ; double r = chance (g, 0.3) ? pick_ratio_range (g, 0.5, 2) : pick_ratio (g) ;
	double work = vh_light ? 2e7 : vh_thorough ? 6e9 : 6e8 ; long double target = work / (conv_cost (conv, ch, r) * r + 2) ; /* input frames */
	if (target > 4e9L) target = 4e9L ; long N = (long) target, blk = chance (g, 0.3) ? rndi (g, 100, 3000) : rndi (g, 3000, 200000), oblk = chance (g, 0.3) ? rndi (g, 100, 3000) : rndi (g, 3000, 200000) ;
	if (N / blk > 3000000) blk = N / 1000000 ; if (N * r / oblk > 3e6) oblk = (long) (N * r / 1e6) ;
	vh_note ("long stream: %s ch=%d ratio=%.17g frames=%ld blocks %ld/%ld", conv_name [conv], ch, r, N, blk, oblk) ;
	P = 1 << 20 ; M = conv == ZOH ? (int) P : 4096 ; double f = 0 ; float *x = gb_alloc ((P + blk) * ch) ;
	if (conv < ZOH) f = floor (0.3 * (r < 1 ? r : 1) * P * (0.1 + 0.9 * rndu (g))) / P ;
	for (long i = 0 ; i < P + blk ; i++)
		for (int c = 0 ; c < ch ; c++) x [i * ch + c] = conv < ZOH ? (float) sin (2 * M_PI * fmod (f * (i % P), 1.0) + c) : (float) ((i % P + 37 * c) % M) ;
	float *o = gb_alloc (oblk * ch) ; SRC_STATE *st = vh_new (conv, ch) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
	long pos = 0, tot = 0, checked = 0, calls = 0 ; double worst = 0 ;
	for (;;)
	{	long inf = N - pos < blk ? N - pos : blk ;
		d.data_in = x + (pos % P) * ch ; d.data_out = o ; d.input_frames = inf ; d.output_frames = oblk ; d.src_ratio = r ; d.end_of_input = pos + inf == N ;
		int e = src_process (st, &d) ; if (e) vh_fail ("process-error", "error %d after %ld frames", e, pos) ;
		if (d.input_frames_used != inf && d.output_frames_gen != oblk) vh_fail ("stall", "call %ld neither consumed its input nor filled its output", calls) ;
		calls ++ ; pos += d.input_frames_used ;
		for (int q = 0 ; q < 6 && d.output_frames_gen ; q++)
		{	long k = q == 0 ? 0 : q == 1 ? d.output_frames_gen - 1 : rndi (g, 0, d.output_frames_gen - 1) ; int c = (int) rndi (g, 0, ch - 1) ; long double p = (tot + k) / (long double) r ; float y = o [k * ch + c] ;
			if (conv >= ZOH) check (conv, c, p, N, step_err (tot + k, r), y, tot + k, "long stream") ;
			else
			{	double reach = conv_reach (conv, r) + 4 ; if (p < reach || p > N - reach) continue ;
				double w = sin (2 * M_PI * (double) fmodl (f * p, 1.0L) + c), er = fabs (w - y) ; if (er > worst) worst = er ;
				if (er > 1e-3) vh_fail ("misaligned", "long stream: frame %ld at position %.3Lf, channel %d: %.7g instead of %.7g", tot + k, p, c, y, w) ;
				}
			checked ++ ;
			}
		tot += d.output_frames_gen ;
		if (pos == N && d.output_frames_gen == 0) break ;
		}
	if (fabsl (tot - N * (long double) r) > 1.0001L) vh_fail ("long-total", "%ld frames from %ld at ratio %.17g in %ld calls, expected %.3Lf", tot, N, r, calls, N * (long double) r) ;
	gb_check (o, "output") ; src_delete (st) ;
	vh_stat ("long_frames_in", N) ; vh_stat ("long_frames_out", tot) ; vh_stat ("long_calls", calls) ; vh_stat ("frames_checked", checked) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + (uint64_t) blk * 65537 + 3) ;
	if (vh_idx < 60) vh_sample ("long stream: %s ch=%d ratio=%.6g, %ld frames in, %ld out, %ld calls, %ld frames checked, total off by %.3Lf", conv_name [conv], ch, r, N, tot, calls, checked, tot - N * (long double) r) ;
}
/* many calls at ever changing ratios: the position follows the ratios of all frames before, without drift */
static void gliding_stream (rng *g)
{	int conv = pick_conv (g), ch = chance (g, 0.6) ? 1 : (int) rndi (g, 2, 7), style = (int) rndi (g, 0, 3) ; double r0 = pick_ratio_range (g, 0.2, 8), width = chance (g, 0.5) ? 0.3 : pow (10, -rndi (g, 1, 9)), cur = r0, last, rmin = r0 / (1 + width) ;
	double work = vh_light ? 2e7 : vh_thorough ? 3e9 : 3e8 ; long double target = work / (conv_cost (conv, ch, rmin) * r0 + 2) ; if (target > 3e8L) target = 3e8L ;
	long N = (long) target, blk = rndi (g, 50, chance (g, 0.5) ? 2000 : 100000), oblk = rndi (g, 50, chance (g, 0.5) ? 2000 : 100000) ;
	vh_note ("gliding stream: %s ch=%d ratio=%.17g +- %.3g style=%d frames=%ld blocks %ld/%ld", conv_name [conv], ch, r0, width, style, N, blk, oblk) ; vh_steps (100000000) ;
	P = 1 << 20 ; M = conv == ZOH ? (int) P : 4096 ; double f = 0 ; float *x = gb_alloc ((P + blk) * ch) ;
	if (conv < ZOH) f = floor (0.3 * (rmin < 1 ? rmin : 1) * P * (0.3 + 0.7 * rndu (g))) / P ;
	for (long i = 0 ; i < P + blk ; i++)
		for (int c = 0 ; c < ch ; c++) x [i * ch + c] = conv < ZOH ? (float) sin (2 * M_PI * fmod (f * (i % P), 1.0) + c) : (float) ((i % P + 37 * c) % M) ;
	float *o = gb_alloc (oblk * ch) ; SRC_STATE *st = vh_new (conv, ch) ; SRC_DATA d ; memset (&d, 0, sizeof d) ;
	long pos = 0, tot = 0, checked = 0, calls = 0 ; long double p = 0 ; double worst = 0 ; last = cur ;
	for (;;)
	{	long inf = N - pos < blk ? N - pos : blk ;
		if (calls)
			cur = style == 0 ? r0 * (1 + width * (rndu (g) - 0.5)) : style == 1 ? r0 * (1 + width * sin (calls * 0.01)) : style == 2 ? r0 * (1 + (calls & 64 ? width : -width) / 2) : r0 * (1 + width * ((double) pos / N - 0.5)) ;
		d.data_in = x + (pos % P) * ch ; d.data_out = o ; d.input_frames = inf ; d.output_frames = oblk ; d.src_ratio = cur ; d.end_of_input = pos + inf == N ;
		int e = src_process (st, &d) ; if (e) vh_fail ("process-error", "error %d after %ld frames", e, pos) ;
		if (d.input_frames_used != inf && d.output_frames_gen != oblk) vh_fail ("stall", "call %ld neither consumed its input nor filled its output", calls) ;
		calls ++ ; pos += d.input_frames_used ;
		long n = d.output_frames_gen, look = n ? rndi (g, 0, n - 1) : 0 ; double now = last ; int vary = fabs (last - cur) > (conv >= ZOH ? 1e-20 : 1e-10) ;
		for (long k = 0 ; k < n ; k++)
		{	if (vary) now = last + k * (cur - last) / oblk ;
			if (k == 0 || k == n - 1 || k == look)
			{	int c = (int) rndi (g, 0, ch - 1) ; float y = o [k * ch + c] ; double err = 2 * step_err (tot + k, rmin) ;
				if (conv >= ZOH) check (conv, c, p, N, err, y, tot + k, "gliding stream") ;
				else
				{	double reach = conv_reach (conv, rmin) + 4 ;
					if (p >= reach && p <= N - reach)
					{	double w = sin (2 * M_PI * (double) fmodl (f * p, 1.0L) + c), er = fabs (w - y) ; if (er > worst) worst = er ;
						if (er > 1e-3) vh_fail ("misaligned", "gliding stream: frame %ld at position %.3Lf, channel %d: %.7g instead of %.7g", tot + k, p, c, y, w) ;
						}
					}
				checked ++ ;
				}
			p += 1 / (long double) now ;
			}
		last = now ; tot += n ;
		if (pos == N && n == 0) break ;
		}
	if (p + 1 / last + 1 < N) vh_fail ("long-total", "the stream of %ld frames ended with the next output frame at position %.6Lf", N, p) ;
	if (p - 1 / last - 1 > N + 1e-6) vh_fail ("long-total", "the stream of %ld frames went on to position %.6Lf", N, p) ;
	gb_check (o, "output") ; src_delete (st) ;
	vh_stat ("long_frames_in", N) ; vh_stat ("long_frames_out", tot) ; vh_stat ("long_calls", calls) ; vh_stat ("frames_checked", checked) ; vh_stat ("gliding_streams", 1) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r0) + (uint64_t) blk * 65537 + style * 31 + 5) ;
	if (vh_idx < 120) vh_sample ("gliding stream: %s ch=%d ratio=%.6g +- %.3g, %ld frames in, %ld out, %ld calls, %ld frames checked, worst error %.3g", conv_name [conv], ch, r0, width, N, tot, calls, checked, worst) ;
}
/* a stream in calls of very few frames: what a call does to the position may not add up */
typedef struct { const float *x ; long N, pos ; int ch, n ; rng *g ; } tcb ;
static long tiny_cb (void *u, float **d) { tcb *t = u ; long n = t->n > 0 ? t->n : rndi (t->g, 1, -t->n) ; if (n > t->N - t->pos) n = t->N - t->pos ; *d = (float *) t->x + t->pos * t->ch ; t->pos += n ; return n ; }
static void tiny_calls (rng *g)
{	int conv = pick_conv (g), ch = chance (g, 0.5) ? 1 : (int) rndi (g, 2, 3), cb = chance (g, 0.3), in = (int) rndi (g, 1, 4), out = (int) rndi (g, 1, 4) ; double r ;
	static const double near [] = { 1, 1, 1, 2, 0.5, 3, 1 / 3.0, 1.5, 2 / 3.0, 0.25, 4, 1.25, 0.75, 8, 0.125 } ;
	if (chance (g, 0.7)) { r = near [rndi (g, 0, 14)] ; if (chance (g, 0.85)) r *= 1 + (chance (g, 0.5) ? 1 : -1) * (1 + 8 * rndu (g)) * pow (10, -rndi (g, 5, 13)) ; } else r = pick_ratio_range (g, 0.05, 20) ;
	double calls = vh_light ? 1e5 : vh_thorough ? 1e7 : 1.5e6, work = vh_light ? 2e7 : vh_thorough ? 3e9 : 4e8 ;
	if (chance (g, 0.3)) in = -in ; if (chance (g, 0.3)) out = -out ;
	double ai = in > 0 ? in : (1 - in) / 2., ao = out > 0 ? out : (1 - out) / 2., step = ai < ao / r ? ai : ao / r ;	/* frames of input per call */
	long N = (long) (calls * step) ; if (N * r * conv_cost (conv, ch, r) > work) N = (long) (work / conv_cost (conv, ch, r) / r) ; N += rndi (g, 0, 1000) ;
	vh_note ("tiny calls: %s ch=%d ratio=%.17g frames=%ld blocks %d/%d%s", conv_name [conv], ch, r, N, in, out, cb ? " callback" : "") ; vh_steps (100000000) ;
	M = conv == ZOH ? 1 << 20 : 64 ; float *x = gb_alloc (N * ch) ;
	for (long i = 0 ; i < N ; i++) for (int c = 0 ; c < ch ; c++) x [i * ch + c] = conv < ZOH ? noise_at (7 + c, i) : (float) ((i + 37 * c) % M) ;
	fvec a = { 0 }, b = { 0 } ; float o [64] ; long ncalls = 0, checked = 0, tot = 0 ; tcb t = { x, N, 0, ch, in, g } ; int e ;
	SRC_STATE *st = cb ? src_callback_new (tiny_cb, conv, ch, &e, &t) : vh_new (conv, ch) ;
	for (;;)
	{	long n = out > 0 ? out : rndi (g, 1, -out), gen ;
		if (cb) { gen = src_callback_read (st, r, n, o) ; if (gen < 0 || gen > n || src_error (st)) vh_fail ("tiny-read", "read of %ld returned %ld, error %d", n, gen, src_error (st)) ; if (gen < n && t.pos < N) vh_fail ("tiny-read", "read of %ld returned %ld after %ld of %ld frames", n, gen, t.pos, N) ; }
		else
		{	SRC_DATA d ; memset (&d, 0, sizeof d) ; long inf = in > 0 ? in : rndi (g, 1, -in) ; if (inf > N - t.pos) inf = N - t.pos ;
			d.data_in = x + t.pos * ch ; d.data_out = o ; d.input_frames = inf ; d.output_frames = n ; d.src_ratio = r ; d.end_of_input = t.pos + inf == N ;
			e = src_process (st, &d) ; gen = d.output_frames_gen ; if (e || gen < 0 || gen > n || d.input_frames_used < 0 || d.input_frames_used > inf) vh_fail ("tiny-process", "call %ld: error %d, used %ld of %ld, generated %ld of %ld", ncalls, e, d.input_frames_used, inf, gen, n) ;
			if (d.input_frames_used != inf && gen != n) vh_fail ("stall", "call %ld neither consumed its input nor filled its output", ncalls) ;
			t.pos += d.input_frames_used ;
			}
		ncalls ++ ; fv_add (&a, o, gen * ch) ;
		if (conv >= ZOH)
			for (long k = 0 ; k < gen ; k++)
				for (int c = 0 ; c < ch ; c++)
				{	long double p = (tot + k) / (long double) r ; double err = step_err (tot + k, r) ;
					if (conv == ZOH) check (conv, c, p, N, err, o [k * ch + c], tot + k, "tiny calls") ;
					else
					{	long double q = p < 1 ? 0 : p - 1 ; long i = (long) floorl (q) ; double f = (double) (q - i), w = (double) ((i + 37 * c) % M) ;
						if (w < 2 || w > M - 3) continue ;
						if (fabs (o [k * ch + c] - (w + f)) > err + 5e-6) vh_fail ("misaligned", "tiny calls: frame %ld at position %.9Lf, channel %d has %.9g instead of %.9g", tot + k, p, c, o [k * ch + c], w + f) ;
						}
					checked ++ ;
					}
		tot += gen ;
		if (gen == 0 && t.pos == N) break ;
		}
	src_delete (st) ;
	if (fabsl (tot - N * (long double) r) > 1.0001L) vh_fail ("tiny-total", "%ld frames from %ld at ratio %.17g in %ld calls, expected %.3Lf", tot, N, r, ncalls, N * (long double) r) ;
	if (conv < ZOH) { ref_stream (conv, ch, x, N, r, &b) ; cmp_streams (conv, ch, r, &a, &b, 1, 1, "tiny-calls", "in tiny calls and in one") ; checked += a.n ; }
	vh_stat ("tiny_calls", ncalls) ; vh_stat ("frames_checked", checked) ; fv_free (&a) ; fv_free (&b) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + 65537 * (in + 10) + 10000019 * (out + 10) + cb) ;
	if (vh_idx < 80) vh_sample ("tiny calls: %s ch=%d ratio=%.12g, %ld frames in %ld %s, %ld out", conv_name [conv], ch, r, N, ncalls, cb ? "reads" : "calls", tot) ;
}
/* millions of channels: steps of many frames are more than 2^31 samples */
typedef struct { float *x ; long N, pos, blk, per ; int ch ; } wcb ;
static long wide_cb (void *u, float **d) { wcb *w = u ; vh_step () ; long n = w->N - w->pos < w->blk ? w->N - w->pos : w->blk ; *d = w->x + (w->pos % w->per) * w->ch ; w->pos += n ; return n ; }
static float wide_val (long frame, long c) { return (float) (frame * 65536 + c % 65521) ; }
static void wide (rng *g)
{	int conv = chance (g, 0.5) ? ZOH : LINEAR, api = (int) rndi (g, 0, 2), per = 4 ; long ch = chance (g, 0.3) ? 1 << 23 : rndi (g, 1 << 21, vh_light ? 10 << 20 : 17 << 20) / 256 * 256 ;
	double r = chance (g, 0.5) ? 1 / 256.0 : pick_ratio_range (g, 1 / 256.0, 1 / 30.0) ; long N = (long) (rndi (g, 1, 8) / r) + rndi (g, 0, 100), blk = chance (g, 0.3) ? rndi (g, 1, 8) : rndi (g, 8, 400), oblk = rndi (g, 1, 2) ;
	if (N / blk > 100) N = blk * 100 ; if (api == 1) oblk = (long) (N * r) + 2 ;
	vh_note ("wide: %s ch=%ld ratio=%.17g frames=%ld blocks %ld/%ld api=%d", conv_name [conv], ch, r, N, blk, oblk, api) ; vh_steps (20000) ;
	long most = api == 1 ? N : blk < N ? blk : N ; float *x = mirror ((most + per) * ch, per * ch), *o = gb_alloc (oblk * ch) ;
	for (long f = 0 ; f < per ; f++) for (long c = 0 ; c < ch ; c++) x [f * ch + c] = wide_val (f, c) ;
	int e = 0 ; long tot = 0, pos = 0, checked = 0, calls = 0 ; wcb w = { x, N, 0, blk, per, (int) ch } ;
	SRC_STATE *st = api == 0 ? vh_new (conv, (int) ch) : api == 2 ? src_callback_new (wide_cb, conv, (int) ch, &e, &w) : NULL ;
	if (e || (api != 1 && !st)) vh_fail ("wide-new", "error %d", e) ;
	for (;;)
	{	long gen ; SRC_DATA d ; memset (&d, 0, sizeof d) ; d.src_ratio = r ; d.data_out = o ; d.output_frames = oblk ;
		if (api == 2) { gen = src_callback_read (st, r, oblk, o) ; e = src_error (st) ; }
		else
		{	d.data_in = x + (pos % per) * ch ; d.input_frames = api == 1 || N - pos < blk ? N - pos : blk ; d.end_of_input = pos + d.input_frames == N ;
			e = api == 1 ? src_simple (&d, conv, (int) ch) : src_process (st, &d) ; gen = d.output_frames_gen ;
			if (!e && (d.input_frames_used < 0 || d.input_frames_used > d.input_frames || (d.input_frames_used < d.input_frames && gen < oblk))) vh_fail ("wide-used", "%ld of %ld frames used, %ld of %ld generated", d.input_frames_used, d.input_frames, gen, oblk) ;
			pos += d.input_frames_used ;
			}
		if (e || gen < 0 || gen > oblk) vh_fail ("wide", "error %d, %ld of %ld frames", e, gen, oblk) ;
		for (long k = 0 ; k < gen ; k++)
		{	long double p = (tot + k) / (long double) r ;
			for (int q = 0 ; q < 40 ; q++)
			{	long c = q == 0 ? 0 : q == 1 ? ch - 1 : rndi (g, 0, ch - 1) ; float y = o [k * ch + c] ; double err = step_err (tot + k, r), bad = INFINITY ;
				if (conv == ZOH)
					for (int t = -1 ; t <= 1 ; t++) { long i = (long) floorl (p + t * err) - 1 ; if (i < 0) i = 0 ; if (y == wide_val (i % per, c)) bad = 0 ; }
				else
				{	long i = (long) floorl (p) - 1 ; double f = (double) (p - floorl (p)), a = wide_val ((i < 0 ? 0 : i) % per, c), b = wide_val ((i + 1) % per, c) ; bad = fabs (a + f * (b - a) - y) - 0.05 - 1e6 * err ; }
				if (bad > 0) vh_fail ("wide-misaligned", "frame %ld at position %.6Lf, channel %ld of %ld has %.9g", tot + k, p, c, ch, y) ;
				checked ++ ;
				}
			}
		tot += gen ; calls ++ ;
		if (api == 1 || (gen == 0 && (api == 2 || pos == N))) break ;
		if (api == 0 && calls == 3 && st)
		{	SRC_STATE *n = src_clone (st, &e) ; if (!n || e) vh_fail ("wide-clone", "src_clone: error %d", e) ; src_delete (st) ; st = n ; }
		}
	if (st) src_delete (st) ;
	if (fabsl (tot - N * (long double) r) > 1.0001L) vh_fail ("wide-total", "%ld frames from %ld at ratio %.17g", tot, N, r) ;
	vh_stat ("frames_checked", checked) ; vh_stat ("wide_channels", ch) ;
	vh_sig (conv * 7919ull + ch * 4099 + ratio_classi (r) + 17 * api + 9) ;
	if (vh_idx < 100) vh_sample ("millions of channels: %s ch=%ld ratio=%.6g, %ld frames in %ld calls, %ld out", conv_name [conv], ch, r, N, calls, tot) ;
}
void vh_case (rng *g, long idx)
{	vh_cleanup (unmap_all, NULL) ;
	int api = (int) (idx / 8 % 3) ;
	if (idx % 20 == 19) { wide (g) ; return ; }
	if (vh_light) { if (chance (g, 0.4)) huge_input_small_output (g) ; else if (chance (g, 0.5)) huge_room (g) ; else if (chance (g, 0.4)) tiny_calls (g) ; else if (chance (g, 0.4)) gliding_stream (g) ; else long_stream (g) ; return ; }
	static const int chs [] = { 1, 2, 3, 1, 6, 1, 17, 128 } ;
	int big = vh_thorough ? 120 : 24 ;
	if (vh_thorough && idx < 10)	/* minutes each */ { huge_consumed (g, FASTEST, (int) (idx < 4 ? idx + 1 : idx == 4 ? 6 : idx == 5 ? 5 : rndi (g, 1, 128)), 1 / 256.0, (int) rndi (g, 0, 2)) ; return ; }
	if (idx < big)
	{	int conv = idx & 1 ? LINEAR : ZOH ; int ch = chs [idx / 2 % 8] ;
		if (idx % 6 < 4) huge_consumed (g, conv, ch, chance (g, 0.3) ? 1 / 256.0 : pick_ratio_range (g, 1 / 256.0, 1 / 60.0), api) ;
		else huge_produced (g, conv, ch, chance (g, 0.3) ? 256 : pick_ratio_range (g, 60, 256), api) ;
		}
	else if (idx & 1) { if (idx & 2) huge_input_small_output (g) ; else huge_room (g) ; }
	else if (idx % 3 == 0) tiny_calls (g) ;
	else if (idx % 3 == 1) gliding_stream (g) ;
	else long_stream (g) ;
}

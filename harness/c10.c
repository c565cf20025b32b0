/* C10: sample format conversions, exhaustively over every value, and on random lengths, alignments and guarded arrays. */
#define _GNU_SOURCE
#include "vh.h"
#include <limits.h>
#include <sys/mman.h>
#include <unistd.h>
const char *vh_prop = "C10" ;
long vh_ncases (int t) { return 773 + (t ? 40000 : 3000) ; }
#define B (1 << 15)
static int32_t ib [B], io [B] ; static float fb [B], fo [B] ; static int16_t so [B], sb [B] ;
static uint64_t nvals ;

/* references: rounding by the 1.5 * 2^52 trick in double (ties to even), no library rounding function */
static inline double rne (double x) { volatile double m = 6755399441055744.0 ; double y = x + m ; return y - m ; }
static inline double rne_fast (double x) { double y = x + 6755399441055744.0 ; __asm__ ("" : "+x" (y)) ; return y - 6755399441055744.0 ; }
static int32_t ref_f2i (float f) { double s = (double) f * 2147483648.0 ; if (s >= 2147483647.0) return 2147483647 ; if (s <= -2147483648.0) return -2147483647 - 1 ; return (int32_t) rne_fast (s) ; }
static int16_t ref_f2s (float f) { double s = (double) f * 32768.0 ; if (s >= 32767.0) return 32767 ; if (s <= -32768.0) return -32768 ; return (int16_t) rne_fast (s) ; }
/* correctly rounded quotient by a power of two: integer rounding by hand */
static float ref_i2f (int32_t v)
{	int neg = v < 0 ; uint32_t m = neg ? 0u - (uint32_t) v : (uint32_t) v ; int sh = 0 ;
	if (m >= 1u << 24)
	{	int bits = 32 - __builtin_clz (m) ; sh = bits - 24 ;
		uint32_t rest = m & ((1u << sh) - 1), half = 1u << (sh - 1) ; m >>= sh ;
		if (rest > half || (rest == half && (m & 1))) m ++ ;
		}
	float f = ldexpf ((float) m, sh - 31) ;
	return neg ? -f : f ;
}
static float ref_i2f_fast (int32_t v) { return (float) ((double) v * (1.0 / 2147483648.0)) ; }

static void chunk (int fn, uint32_t base)
{	long span = 1L << 24, step = vh_light ? 1L << 18 : B ;
	static const char *nm [] = { "src_float_to_short_array", "src_float_to_int_array", "src_int_to_float_array" } ;
	vh_note ("%s values 0x%08x..", nm [fn], base) ;
	for (long o = 0 ; o < span ; o += step)
	{	uint32_t b = base + (uint32_t) o ;
		long bad = -1 ;
		if (fn == 2)
		{	for (long i = 0 ; i < B ; i++) ib [i] = (int32_t) (b + (uint32_t) i) ;
			src_int_to_float_array (ib, fo, B) ;
			int acc = 0 ;
			for (long i = 0 ; i < B ; i++) acc |= fo [i] != ref_i2f_fast ((int32_t) (b + (uint32_t) i)) ;
			if (acc) for (long i = 0 ; i < B ; i++) if (fo [i] != ref_i2f ((int32_t) (b + (uint32_t) i))) { bad = i ; break ; }
			if (bad >= 0) vh_fail ("int-to-float", "src_int_to_float_array: %d gives %.12g, expected %.12g", (int32_t) (b + (uint32_t) bad), fo [bad], ref_i2f ((int32_t) (b + (uint32_t) bad))) ;
			if (o % (1 << 20) == 0) for (long i = 0 ; i < B ; i += 31) if (ref_i2f (ib [i]) != ref_i2f_fast (ib [i])) { fprintf (stderr, "reference functions disagree on %d\n", ib [i]) ; exit (2) ; }
			}
		else
		{	uint32_t *q = (uint32_t *) ib ; for (long i = 0 ; i < B ; i++) q [i] = b + (uint32_t) i ;
			memcpy (fb, ib, sizeof fb) ;
			if (((b >> 23) & 255) == 255) for (long i = 0 ; i < B ; i++) if (isnan (fb [i])) fb [i] = 0.25f ;	/* NaN has no defined integer */
			if (fn == 0)
			{	src_float_to_short_array (fb, so, B) ;
				int acc = 0 ; for (long i = 0 ; i < B ; i++) acc |= so [i] != ref_f2s (fb [i]) ;
				if (acc) for (long i = 0 ; i < B ; i++) if (so [i] != ref_f2s (fb [i])) vh_fail ("float-to-short", "src_float_to_short_array: %.12g (%a) gives %d, expected %d", fb [i], fb [i], so [i], ref_f2s (fb [i])) ;
				}
			else
			{	src_float_to_int_array (fb, io, B) ;
				int acc = 0 ; for (long i = 0 ; i < B ; i++) acc |= io [i] != ref_f2i (fb [i]) ;
				if (acc) for (long i = 0 ; i < B ; i++) if (io [i] != ref_f2i (fb [i])) vh_fail ("float-to-int", "src_float_to_int_array: %.12g (%a) gives %d, expected %d", fb [i], fb [i], io [i], ref_f2i (fb [i])) ;
				}
			}
		nvals += B ;
		}
}

#define CANARY 0x5ca1ab1eu
static void random_arrays (rng *g)
{	int fn = rndi (g, 0, 3) ;
	long len = chance (g, 0.1) ? 0 : chance (g, 0.5) ? rndi (g, 1, 40) : rndi (g, 1, 5000) ; int neg = chance (g, 0.03) ;
	size_t is = fn == 0 ? 2 : 4, os = fn == 1 ? 2 : 4 ;
	long pa = rndi (g, 0, 16), pb = rndi (g, 1, 16) ;
	vh_note ("function %d len=%ld", fn, neg ? -len : len) ;
	/* exact heap blocks under ASan; elsewhere canaries around */
	int exact = 0 ;
#ifdef VH_ASAN
	exact = 1 ; pa = pb = 0 ;
#endif
	(void) exact ;
	char *ia = malloc ((pa + len + pb) * is + 1), *oa = malloc ((pa + len + pb) * os + 1), *ic = malloc ((pa + len + pb) * is + 1) ;
	if (exact) { free (ia) ; free (oa) ; ia = malloc (len * is) ; oa = malloc (len * os) ; }
	for (size_t i = 0 ; i < (pa + len + pb) * is ; i++) ia [i] = (char) rnd (g) ;
	for (size_t i = 0 ; i < (pa + len + pb) * os ; i++) oa [i] = (char) (0x5c + i * 7) ;
	char *in = ia + pa * is, *out = oa + pa * os ;
	if (fn == 1 || fn == 2)
		for (long i = 0 ; i < len ; i++)
		{	float f ; switch (rndi (g, 0, 9))
			{	case 0 : { uint32_t q = (uint32_t) rnd (g) ; memcpy (&f, &q, 4) ; break ; }
				case 1 : f = (float) ((rndi (g, -40000, 40000) + 0.5) / 32768.0) ; break ;		/* ties */
				case 2 : { static const float w [] = { 1, -1, 0.99999994f, -0.99999994f, INFINITY, -INFINITY, 1.0000001f, -1.0000001f, 0.0f, -0.0f, 32767 / 32768.0f, 32767.5f / 32768.0f, 32766.5f / 32768, 1e30f, -1e30f, 2, -2 } ; f = w [rndi (g, 0, 16)] ; break ; }
				default : f = (float) (3 * rndu (g) - 1.5) ; break ;
				}
			if (isnan (f)) f = 0.5f ;
			((float *) in) [i] = f ;
			}
	memcpy (ic, ia, (pa + len + pb) * is) ;
	int n = neg ? (int) -len : (int) len ;
	switch (fn)
	{	case 0 : src_short_to_float_array ((short *) in, (float *) out, n) ; break ;
		case 1 : src_float_to_short_array ((float *) in, (short *) out, n) ; break ;
		case 2 : src_float_to_int_array ((float *) in, (int *) out, n) ; break ;
		default : src_int_to_float_array ((int *) in, (float *) out, n) ; break ;
		}
	long done = n > 0 ? n : 0 ;
	if (memcmp (ic, ia, (pa + len + pb) * is)) vh_fail ("input-changed", "function %d changed its input", fn) ;
	for (size_t i = 0 ; i < (pa + len + pb) * os ; i++)
		if ((i < pa * os || i >= (pa + done) * os) && oa [i] != (char) (0x5c + i * 7)) vh_fail ("wrote-outside", "function %d with len %d wrote byte %ld outside its output", fn, n, (long) i - (long) (pa * os)) ;
	for (long i = 0 ; i < done ; i++)
	{	int ok ;
		switch (fn)
		{	case 0 : ok = ((float *) out) [i] == (float) (((short *) in) [i] / 32768.0) ; break ;
			case 1 : ok = ((short *) out) [i] == ref_f2s (((float *) in) [i]) ; break ;
			case 2 : ok = ((int *) out) [i] == ref_f2i (((float *) in) [i]) ; break ;
			default : ok = ((float *) out) [i] == ref_i2f (((int *) in) [i]) ; break ;
			}
		if (!ok) vh_fail ("element", "function %d, len %d: element %ld is wrong", fn, n, i) ;
		}
	nvals += done ;
	vh_sig (fn * 1000000 + len * 64 + pa * 4 + neg) ;
	free (ia) ; free (oa) ; free (ic) ;
}

/* arrays of up to INT_MAX elements: gigabytes of address space over a few megabytes that repeat every E elements, only the last T
** elements have memory of their own, and nothing can be read or written outside the arrays */
#define E (1L << 24)
#define T (1L << 16)
static struct { char *b ; size_t n ; } maps [2] ; static int nmaps ;
static void unmap (void *u) { (void) u ; while (nmaps) { nmaps -- ; munmap (maps [nmaps].b, maps [nmaps].n) ; } }
static char *repeated (long len, size_t size)	/* ends at the end of a page; element i of the ring is element len - T - E + i of the array, and every E elements before */
{	size_t ring = E * size, tail = T * size, total = (len * size + ring - 1) / ring * ring + ring ; int fd = memfd_create ("c10", 0) ;
	if (fd < 0 || ftruncate (fd, ring)) { perror ("memfd") ; exit (2) ; }
	char *b = mmap (NULL, total + tail + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) ;
	if (b == MAP_FAILED) { perror ("mmap") ; exit (2) ; }
	maps [nmaps].b = b ; maps [nmaps ++].n = total + tail + 8192 ;
	char *first = b + 4096 + total + tail - len * size ; 
	for (size_t o = 0 ; o < total ; o += ring)
		if (b + 4096 + o + ring > first && mmap (b + 4096 + o, ring, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror ("mmap") ; exit (2) ; }
	if (mmap (b + 4096 + total, tail, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { perror ("mmap") ; exit (2) ; }
	close (fd) ;
	return first ;
}
static void long_array (rng *g, int fn, int most)
{	vh_cleanup (unmap, NULL) ; size_t is = fn == 0 ? 2 : 4, os = fn == 1 ? 2 : 4 ;
	long len = vh_light ? rndi (g, 1L << 27, 1L << 28) : most ? INT_MAX : chance (g, 0.5) ? INT_MAX - rndi (g, 0, 40) : rndi (g, 1L << 29, INT_MAX) ;
	vh_note ("function %d, %ld elements", fn, len) ;
	char *in = repeated (len, is), *out = repeated (len, os) ; long from = len - T - E ;
	for (int seg = 0 ; seg < 2 ; seg++)		/* the last ring, and the tail with memory of its own */
		for (long i = seg ? len - T : from ; i < (seg ? len : len - T) ; i++)
		{	uint64_t v = (uint64_t) (i - from) * 0x9e3779b97f4a7c15ull + 12345 * seg ; v ^= v >> 29 ;
			if (fn == 0) ((short *) in) [i] = (short) v ; else if (fn == 3) ((int *) in) [i] = (int) v ; else ((float *) in) [i] = (float) (int32_t) v * (float) (1.2 / 2147483648.0) ;
			if (fn == 1) ((short *) out) [i] = 0x5a5a ; else ((uint32_t *) out) [i] = 0x5a5a5a5a ;
			}
	switch (fn)
	{	case 0 : src_short_to_float_array ((short *) in, (float *) out, (int) len) ; break ;
		case 1 : src_float_to_short_array ((float *) in, (short *) out, (int) len) ; break ;
		case 2 : src_float_to_int_array ((float *) in, (int *) out, (int) len) ; break ;
		default : src_int_to_float_array ((int *) in, (float *) out, (int) len) ; break ;
		}
	for (long i = from ; i < len ; i++)
	{	int ok ;
		switch (fn)
		{	case 0 : ok = ((float *) out) [i] == (float) (((short *) in) [i] / 32768.0) ; break ;
			case 1 : ok = ((short *) out) [i] == ref_f2s (((float *) in) [i]) ; break ;
			case 2 : ok = ((int *) out) [i] == ref_f2i (((float *) in) [i]) ; break ;
			default : ok = ((float *) out) [i] == ref_i2f (((int *) in) [i]) ; break ;
			}
		if (!ok) vh_fail ("long-array", "function %d, %ld elements: element %ld is wrong", fn, len, i) ;
		}
	nvals += len ; vh_stat ("elements_of_long_arrays", len) ; vh_sig (55555 + fn) ; vh_sample ("function %d on one array of %ld elements", fn, len) ;
}

void vh_case (rng *g, long idx)
{	if (idx < 768) { chunk ((int) (idx / 256), (uint32_t) (idx % 256) << 24) ; vh_sig (idx + 1000000007) ; if (idx % 256 == 63) vh_sample ("chunk %ld: all 2^24 values equal the reference", idx) ; return ; }
	if (idx == 768)
	{	vh_note ("all shorts") ;
		for (long k = 0 ; k < 2 ; k++)
		{	for (long i = 0 ; i < B ; i++) sb [i] = (int16_t) (k * B + i - 32768) ;
			src_short_to_float_array (sb, fo, B) ;
			for (long i = 0 ; i < B ; i++) if (fo [i] != (float) sb [i] / 32768.0f) vh_fail ("short-to-float", "%d gives %.9g", sb [i], fo [i]) ;
			src_float_to_short_array (fo, so, B) ;
			for (long i = 0 ; i < B ; i++) if (so [i] != sb [i]) vh_fail ("roundtrip", "short %d comes back as %d", sb [i], so [i]) ;
			}
		nvals += 2 * B ; vh_sig (12345) ; vh_sample ("all 65536 shorts convert exactly and come back unchanged") ;
		return ;
		}
	if (idx < 777) { long_array (g, (int) (idx - 769) % 4, idx < 773) ; return ; }
	random_arrays (g) ;
}
void vh_fini (void) { vh_stat ("values_converted", (double) nvals) ; (void) rne ; }

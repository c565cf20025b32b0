/* Common machinery of the monitors: case loop, PRNG, guarded buffers, monitored API calls,
** stream schedules and the reference model.  Only the public API of the library is used. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <samplerate.h>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VH_ASAN 1
# endif
# if __has_feature(memory_sanitizer)
#  define VH_MSAN 1
#  include <sanitizer/msan_interface.h>
# endif
# if __has_feature(thread_sanitizer)
#  define VH_TSAN 1
# endif
#endif

/* ---- PRNG ---- */
typedef struct { uint64_t s ; } rng ;
uint64_t mix64 (uint64_t x) ;
static inline uint64_t rnd (rng *g) { return mix64 (g->s += 0x9E3779B97F4A7C15ull) ; }
static inline double rndu (rng *g) { return (rnd (g) >> 11) * (1.0 / 9007199254740992.0) ; }
/* inclusive */
static inline long rndi (rng *g, long lo, long hi) { return lo + (long) (rnd (g) % (uint64_t) (hi - lo + 1)) ; }
static inline int chance (rng *g, double p) { return rndu (g) < p ; }

/* ---- supplied by each property ---- */
extern const char *vh_prop ;
long vh_ncases (int thorough) ;
void vh_case (rng *g, long idx) ;
/* optional (weak) */
void vh_init (void) ;
void vh_fini (void) ;
void vh_outside (void) ;	/* a handler runs while the library may be active */

extern int vh_thorough ;
extern long vh_idx ;
extern int vh_light ;	/* set for sanitizer variants: scale workloads down */

/* ---- reporting ---- */
void vh_fail (const char *key, const char *fmt, ...) __attribute__ ((format (printf, 2, 3), noreturn)) ;
void vh_sample (const char *fmt, ...) __attribute__ ((format (printf, 1, 2))) ;
void vh_stat (const char *name, double add) ;
void vh_sig (uint64_t h) ;	/* signature of a distinct non-trivial behaviour */
void vh_note (const char *fmt, ...) __attribute__ ((format (printf, 1, 2))) ; /* description of the current case */
void vh_steps (long limit) ; /* logical step budget of the current case */
void vh_step (void) ;
int vh_guarded (void (*fn) (void *), void *arg) ; /* run fn in another thread: 1 if it failed */
void vh_cleanup (void (*fn) (void *), void *arg) ; /* run at the end of case or on failure */

/* ---- converters ---- */
#ifdef VH_BEST	/* builds with the best converter (on a stand-in for its filter table): it takes the place of the medium one everywhere */
enum { MEDIUM = 0, FASTEST = 2, ZOH = 3, LINEAR = 4 } ;
#else
enum { MEDIUM = 1, FASTEST = 2, ZOH = 3, LINEAR = 4 } ;
#endif
extern const char *conv_name [5] ;
double conv_reach (int conv, double r) ;	/* frames of input around the position that can matter */
int pick_conv (rng *g) ;
int pick_channels (rng *g, int conv, int maxch) ;
double pick_ratio (rng *g) ;
double pick_ratio_range (rng *g, double lo, double hi) ;
const char *ratio_class (double r) ;
int ratio_classi (double r) ;
long conv_buflen (int conv) ;	/* capacity scale (frames) of the internal buffer of the sinc converters */
double conv_cost (int conv, int ch, double r) ; /* per output frame */
long pick_N (rng *g, int conv, int ch, double r, double budget) ; /* interesting stream lengths within a cost budget */
int near_tie (double r, long N) ;
int exact_step (double r) ;
long needed_at_most (int conv, double r, long k) ; /* a converter holding that many frames more than this can generate frame k */

/* ---- buffers ---- */
#define PATTERN 0x7fc0beefu
float *gb_alloc (long nfloats) ;	/* exact size, guarded; filled with PATTERN */
void gb_check (const float *p, const char *what) ;
void gb_free (float *p) ;
void gb_freeall (void) ;
float *ro_copy (const float *src, long n) ;	/* read-only, ends at the end of its page */
void ro_free (float *p, long n) ;
long gb_len (const float *p) ;

typedef struct { float *v ; long n, cap ; } fvec ;
void fv_add (fvec *f, const float *p, long n) ;
void fv_free (fvec *f) ;
/* compares two output streams of the same conversion; lengths may differ by at most slack */
void cmp_streams (int conv, int ch, double r, const fvec *a, const fvec *b, double peak, long slack, const char *key, const char *what) ;


/* ---- signals ---- */
float noise_at (uint64_t seed, long i) ;	/* deterministic white noise in [-1,1) */
enum { SIG_NOISE, SIG_DC, SIG_SINE, SIG_IMPULSES, SIG_RAMP, SIG_STEP, SIG_TINY, SIG_HUGE, SIG_ZERO, SIG_MIXED, SIG_KINDS } ;
float *make_signal (rng *g, int kind, long frames, int ch) ; /* gb_alloc'ed, interleaved */
float peak_of (const float *x, long n) ;

typedef struct { const float *x ; long N ; int ch ; int conv ; } model ;
/* ---- monitored calls ---- */
typedef struct { int err ; long used, gen ; } cres ;
/* Presents in[0..inf) as a fresh exact-size copy (unless direct), output goes to a fresh exact-size buffer,
** all per-call invariants are checked, the output is appended to out (may be NULL). */
cres vh_process (SRC_STATE *st, int ch, const float *in, long inf, long outf, double ratio, int eoi, fvec *out) ;
extern int vh_null_when_empty ;	/* pass data_in == NULL when inf == 0 */
extern int vh_check_progress ;	/* default 1 */
extern int vh_inf_in ;	/* input may hold NaN: do not insist that every output was overwritten by a different value */
SRC_STATE *vh_new (int conv, int ch) ;
void vh_delete (SRC_STATE *st) ;
long vh_event_count (void) ;

/* ---- stream schedules at constant ratio ---- */
enum { BLK_ALL, BLK_ONE, BLK_TINY, BLK_SMALL, BLK_BIG, BLK_MIX, BLK_EXACT, BLK_STYLES } ;
enum { EOI_WITH_LAST, EOI_SEPARATE, EOI_NULL, EOI_STYLES } ;
typedef struct { int in_style, out_style, eoi_style ; double zero_p ; long exact ; rng g ; } sched ;
void pick_sched (rng *g, sched *s, long N, double r) ;
const char *sched_str (const sched *s) ;
long vh_block (rng *g, int style, long exact) ;
/* feeds x[0..N) and drains; returns total frames. calls: number of src_process calls */
long vh_stream (SRC_STATE *st, int ch, const float *x, long N, double r, sched *s, fvec *out, long *calls) ;
/* feed without end of input; out-limited as the schedule says, until all input consumed and output runs dry */
long vh_feed (SRC_STATE *st, int ch, const float *x, long N, double r, sched *s, fvec *out) ;

/* one call with everything, end of input set, ample room: the whole stream in one go */
void ref_stream (int conv, int ch, const float *x, long N, double r, fvec *out) ;
/* monitored src_simple on exact-size copies */
cres vh_simple (int conv, int ch, const float *in, long inf, long outf, double ratio, int eoi, fvec *out) ;
/* compare the last and first frames and some random ones with the reference model at position k/r */
long model_sample (rng *g, const model *m, double r, const fvec *y, double peak, long count, long ends, const char *key) ;

/* ---- callback source ---- */
typedef struct
{	const float *x ; long N, pos ; int ch ; int style ; long exact ; rng g ;
	float *cur ;	/* block handed out last (a fresh exact-size copy) */
	long cur_n, calls, given ; int ended ; int null_at_end ; int keep_old ;
	long asked_at ;	/* frames given when it was called last */
	double pause_p, neg_p ; long pauses ;	/* now and then return zero or a negative count although data is left */
	void *tag ;
} cbsrc ;
long vh_cb (void *p, float **data) ;
void cbsrc_init (cbsrc *c, rng *g, const float *x, long N, int ch, int style) ;
void cbsrc_done (cbsrc *c) ;
/* one monitored read */
long vh_read (SRC_STATE *st, int ch, double r, long frames, fvec *out) ;

/* ---- reference model ---- */
/* value of channel c at position n0 + frac under ratio r; tie alternatives handled by model_check */
double model_slope (int conv, double off) ;
double model_val (const model *m, int c, long n0, double frac, double r, int dstart, int dinc) ;
/* compare y with the model at long double position p; returns error relative to local peak (0 = fine) and fails the
** case on mismatch */
void model_check (const model *m, int c, long double p, double r, float y, double peak, const char *what, long k) ;
double model_tol (int conv) ;
/* ratio trajectory of the documented behaviour */
typedef struct { double last ; long double pos ; } traj ;
/* total frames that N input frames give at constant ratio: allowed interval */
void expected_total (int conv, long N, double r, double *lo, double *hi) ;

void stack_fill (int byte) ;
#endif

/* C07: a reset converter against a new one. */
#include "script.h"
const char *vh_prop = "C07" ;
long vh_ncases (int t) { return t ? 40000 : 10000 ; }
void vh_init (void) { script_init (1) ; }
#define MAXOPS 80
static op hist [MAXOPS], cont [MAXOPS] ;
/* Every error a converter can remember, then a reset (perhaps of a clone): nothing pending, and the stream afterwards is that of a new one. */
typedef struct { float *x ; long N, pos, blk ; int ch ; } feed7 ;
static long cb7 (void *u, float **d) { feed7 *f = u ; vh_step () ; long n = f->blk < f->N - f->pos ? f->blk : f->N - f->pos ; *d = f->x + f->pos * f->ch ; f->pos += n ; return n ; }
static void errors (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, 64), cb = chance (g, 0.75), kind = (int) rndi (g, 0, 3), e, seen = 0 ; static const int want [] = { 16, 4, 6, 18 } ;
	if (!cb) kind = 3 ; else if (kind == 3) kind = 0 ;
	double r = pick_ratio_range (g, 0.2, 5) ; long N = rndi (g, 50, 600) ; feed7 f = { gb_alloc (N * ch), N, 0, rndi (g, 1, 700), ch }, h ;
	for (long i = 0 ; i < N * ch ; i++) f.x [i] = noise_at (idx, i) ;
	float *y = gb_alloc (100 * ch), *z = gb_alloc (100 * ch) ;
	vh_note ("%s ch=%d %s: error %d, reset", conv_name [conv], ch, cb ? "callback" : "process", want [kind]) ; vh_steps (5000) ;
	SRC_STATE *st = cb ? src_callback_new (cb7, conv, ch, &e, &f) : src_new (conv, ch, &e), *fresh ; if (!st) vh_fail ("new-failed", "%d", e) ;
	if (cb) for (int k = (int) rndi (g, 0, 3) ; k > 0 ; k--) src_callback_read (st, r, rndi (g, 1, 60), y) ;
	for (int k = (int) rndi (g, 1, 3) ; k > 0 ; k--)
		switch (kind)
		{	case 0 : for (int j = 0 ; j < 40 && f.pos < N && !seen ; j++)
				{	/* into the block about to be supplied; while earlier frames still serve, the read succeeds and changes it */
					long at = f.pos < N ? f.pos : 0 ; src_callback_read (st, r, 1, f.x + at * ch) ; seen = src_error (st) == 16 ;
					}
				break ;
			case 1 : src_callback_read (st, r, rndi (g, 1, 60), NULL) ; seen = src_error (st) == 4 ; break ;
			case 2 : src_callback_read (st, 300, rndi (g, 1, 60), y) ; seen = src_error (st) == 6 ; break ;
			default : src_callback_read (st, r, rndi (g, 1, 60), y) ; seen = src_error (st) == 18 ; break ;
			}
	if (kind && !seen) vh_fail ("not-recorded", "src_error is %d, not %d", src_error (st), want [kind]) ;
	if (chance (g, 0.3)) { SRC_STATE *c = src_clone (st, &e) ; if (!c) vh_fail ("clone", "%d", e) ; src_delete (st) ; st = c ; }
	if (src_reset (st)) vh_fail ("reset-failed", "src_reset failed") ;
	if (src_error (st)) vh_fail ("error-kept", "src_error is %d (%s) after src_reset", src_error (st), src_strerror (src_error (st))) ;
	f.pos = 0 ; h = f ; fresh = cb ? src_callback_new (cb7, conv, ch, &e, &h) : src_new (conv, ch, &e) ; if (!fresh) vh_fail ("new-failed", "%d", e) ;
	for (int k = 0 ; k < 6 ; k++)
	{	long w = rndi (g, 1, 100), a, b ;
		if (cb)
		{	a = src_callback_read (st, r, w, y) ; b = src_callback_read (fresh, r, w, z) ; if (a != b || f.pos != h.pos || src_error (st) != src_error (fresh)) vh_fail ("reset-differs", "read %d of %ld: %ld frames (error %d), a new converter %ld (error %d)", k, w, a, src_error (st), b, src_error (fresh)) ; }
		else
		{	SRC_DATA d, q ; memset (&d, 0, sizeof d) ; d.data_in = f.x ; d.input_frames = N ; d.output_frames = w ; d.src_ratio = r ; q = d ; d.data_out = y ; q.data_out = z ;
			int ea = src_process (st, &d), eb = src_process (fresh, &q) ; a = d.output_frames_gen ; b = q.output_frames_gen ;
			if (ea != eb || a != b || d.input_frames_used != q.input_frames_used || src_error (st) != src_error (fresh)) vh_fail ("reset-differs", "call %d: error %d, %ld frames, a new converter %d, %ld", k, ea, a, eb, b) ;
			}
		if (memcmp (y, z, a * ch * sizeof (float))) vh_fail ("reset-differs", "call %d after an error and a reset gives other samples than a new converter", k) ;
		}
	src_delete (st) ; src_delete (fresh) ; vh_stat ("errors_then_reset", 1) ; vh_stat ("resets", 1) ;
	vh_sig (conv * 1000003ull + ch * 4099 + kind * 100 + seen + 0x700000 + (uint64_t) N * 7919) ;
}
void vh_case (rng *g, long idx)
{	if (idx % 20 == 7) { errors (g, idx) ; return ; }
	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 200 : 128), cb = chance (g, 0.45) ;
	double b = vh_light ? 6e4 : 3e5 ;
	blog la = { 0 }, lb = { 0 }, junk = { 0 } ;
	subj a, f ; 
	int rounds = (int) rndi (g, 1, 3), ops = 0 ;
	subj_init (&a, g, conv, ch, cb) ;
	for (int k = 0 ; k < rounds ; k++)
	{	int nh = gen_script (g, conv, ch, cb, chance (g, 0.1) ? 0 : (int) rndi (g, 1, 40), b / rounds, SC_NORESET, hist) ;
		int nc = gen_script (g, conv, ch, cb, (int) rndi (g, 2, 30), b / rounds, 0, cont) ;
		vh_note ("%s ch=%d %s, round %d: %d operations, reset, %d operations", conv_name [conv], ch, cb ? "callback" : "process", k, nh, nc) ;
		run_ops (&a, hist, 0, nh, &junk) ; ops += nh + nc ;
		if (src_reset (a.st) != 0) vh_fail ("reset-failed", "src_reset failed") ;
		if (chance (g, 0.1)) src_reset (a.st) ;
		if (src_error (a.st) != 0) vh_fail ("error-kept", "src_error is %d after src_reset", src_error (a.st)) ;
		if (src_get_channels (a.st) != ch) vh_fail ("channels", "src_get_channels %d", src_get_channels (a.st)) ;
		/* the stream data from here on: same for both */
		subj_init (&f, g, conv, ch, cb) ;
		subj_same_data (&a, &f) ;
		subj *slot_keep = a.slot_v ; (void) slot_keep ;
		la.n = lb.n = la.frames = lb.frames = 0 ;
		run_ops (&a, cont, 0, nc, &la) ;
		run_ops (&f, cont, 0, nc, &lb) ;
		log_same (&la, &lb, "reset-differs", "converter after reset and a new one") ;
		vh_delete (f.st) ;
		vh_stat ("frames_compared", lb.frames) ; vh_stat ("resets", 1) ;
		}
	vh_delete (a.st) ;
	vh_stat ("operations", ops) ;
	vh_sig (conv * 1000003ull + ch * 31 + cb * 7 + script_sig (cont, 3) + ops * 1315423911ull) ;
	if (idx < 20) vh_sample ("%s ch=%d %s: %d rounds of history/reset/history, %d operations, bit-identical to new converters", conv_name [conv], ch, cb ? "callback" : "process", rounds, ops) ;
	log_free (&la) ; log_free (&lb) ; log_free (&junk) ;
}

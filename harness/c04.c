/* C04: the same stream through the three APIs and through different divisions into calls. */
#include "vh.h"
const char *vh_prop = "C04" ;
long vh_ncases (int t) { return t ? 40000 : 9000 ; }

static long cb_stream (rng *g, int conv, int ch, const float *x, long N, double r, fvec *out)
{	cbsrc c ; int e = -1, st_in, st_out, tries = 0 ;
	do st_in = rndi (g, 0, BLK_STYLES - 1) ; while (N > 4000 && (st_in == BLK_ONE || st_in == BLK_TINY) && tries++ < 20) ;
	do st_out = rndi (g, BLK_ONE, BLK_EXACT) ; while (N * r > 4000 && (st_out == BLK_ONE || st_out == BLK_TINY) && tries++ < 40) ;
	cbsrc_init (&c, g, x, N, ch, st_in) ;
	SRC_STATE *st = src_callback_new (vh_cb, conv, ch, &e, &c) ;
	if (!st || e) vh_fail ("new-failed", "src_callback_new: %d", e) ;
	long ex = rndi (g, 1, 5000), n, want, reads = 0 ;
	do
	{	want = vh_block (g, st_out, ex) ; if (want > (long) (N * r) + 16) want = (long) (N * r) + 16 ;
		n = vh_read (st, ch, r, want, out) ; reads ++ ;
		}
	while (n == want) ;
	vh_delete (st) ; cbsrc_done (&c) ;
	return reads ;
}

void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 300 : 128) ;
	double r = pick_ratio (g), budget = vh_light ? 4e5 : vh_thorough ? 4e6 : 1.5e6 ;
	long N = pick_N (g, conv, ch, r, budget) ;
	float *x = make_signal (g, chance (g, 0.7) ? SIG_NOISE : SIG_MIXED, N, ch) ;
	double peak = peak_of (x, N * ch) ;
	long slack = near_tie (r, N) ? 1 : 0 ;
	fvec ref = { 0 }, out = { 0 } ; uint64_t sig = conv * 1000003ull + (ch > 6 ? 7 : ch) * 4099 + ratio_classi (r) * 17 ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld", conv_name [conv], ch, r, N) ;
	vh_steps (1000000) ;
	ref_stream (conv, ch, x, N, r, &ref) ;
	for (int i = 0 ; i < 2 ; i++)
	{	sched s ; pick_sched (g, &s, N, r) ;
		SRC_STATE *st = vh_new (conv, ch) ; long calls = 0 ; out.n = 0 ;
		vh_stream (st, ch, x, N, r, &s, &out, &calls) ;
		vh_delete (st) ;
		cmp_streams (conv, ch, r, &ref, &out, peak, slack, "chunking", sched_str (&s)) ;
		vh_stat ("process_calls", calls) ;
		sig = sig * 31 + s.in_style * 1000 + s.out_style * 100 + s.eoi_style * 7919 ;
		if (idx < 20) vh_sample ("%s ch=%d ratio=%.6g N=%ld: one call and %ld calls (%s) give the same %ld frames", conv_name [conv], ch, r, N, calls, sched_str (&s), ref.n / ch) ;
		}
	out.n = 0 ; cres c = vh_simple (conv, ch, x, N, (long) (N * r) + 20, r, 0, &out) ;
	cmp_streams (conv, ch, r, &ref, &out, peak, slack, "simple", "src_process and src_simple") ;
	if (c.used != N) vh_fail ("simple-used", "src_simple used %ld of %ld", c.used, N) ;
	out.n = 0 ; vh_stat ("reads", cb_stream (g, conv, ch, x, N, r, &out)) ;
	cmp_streams (conv, ch, r, &ref, &out, peak, slack, "callback", "src_process and src_callback_read") ;
	vh_stat ("compared_frames", 4 * (ref.n / ch)) ;
	vh_sig (sig) ;
	fv_free (&ref) ; fv_free (&out) ;
}

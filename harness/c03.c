/* C03: conservation over a finished stream: total frames, last frames, nothing after the end. */
#include "vh.h"
const char *vh_prop = "C03" ;
long vh_ncases (int t) { return t ? 60000 : 15000 ; }

void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 400 : 128) ;
	double r = pick_ratio (g), lo, hi, budget = vh_light ? 8e5 : vh_thorough ? 6e6 : 2.5e6 ;
	long N = pick_N (g, conv, ch, r, budget) ;
	float *x = make_signal (g, chance (g, 0.6) ? SIG_NOISE : SIG_MIXED, N, ch) ;
	/* make the very last frames stand out */
	if (N > 0 && chance (g, 0.5)) for (int c = 0 ; c < ch ; c++) x [(N - 1) * ch + c] = c & 1 ? -1.5f : 1.5f ;
	double peak = peak_of (x, N * ch) ;
	fvec out = { 0 } ;
	int api = rndi (g, 0, 5) ;	/* 0..2 process, 3 simple, 4..5 callback */
	const char *how = "" ;
	long total ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld api=%d", conv_name [conv], ch, r, N, api) ;
	vh_steps (500000) ;
	if (api <= 2)
	{	sched s ; pick_sched (g, &s, N, r) ; how = sched_str (&s) ;
		SRC_STATE *st = vh_new (conv, ch) ;
		int again = chance (g, 0.2) ;
		if (again)
		{	/* the same handle after an earlier stream and a reset */
			long M = N < 3000 ? N : 3000 ; sched s0 ; pick_sched (g, &s0, M, r) ;
			vh_stream (st, ch, x, M, r, &s0, NULL, NULL) ; src_reset (st) ;
			}
		total = vh_stream (st, ch, x, N, r, &s, &out, NULL) ;
		for (int i = 0 ; i < 4 ; i++)
		{	vh_null_when_empty = i & 1 ;
			cres c = vh_process (st, ch, x, 0, i == 0 ? 1 : rndi (g, 1, 3000), r, 1, NULL) ;
			if (c.gen) vh_fail ("after-end", "%ld more frames after the stream was completely drained (%s)", c.gen, how) ;
			}
		vh_delete (st) ;
		}
	else if (api == 3)
	{	cres c = vh_simple (conv, ch, x, N, (long) (N * r) + 20, r, (int) rndi (g, 0, 1), &out) ;
		total = c.gen ; how = "src_simple" ;
		if (c.used != N) vh_fail ("unused", "src_simple used %ld of %ld frames", c.used, N) ;
		}
	else
	{	cbsrc c ; int e = -1, tries = 0 ; int st_in, st_out ;
		do st_in = rndi (g, 0, BLK_STYLES - 1) ; while (N > 4000 && (st_in == BLK_ONE || st_in == BLK_TINY) && tries++ < 20) ;
		do st_out = rndi (g, BLK_ONE, BLK_EXACT) ; while (N * r > 4000 && (st_out == BLK_ONE || st_out == BLK_TINY) && tries++ < 40) ;
		cbsrc_init (&c, g, x, N, ch, st_in) ;
		SRC_STATE *st = src_callback_new (vh_cb, conv, ch, &e, &c) ;
		if (!st || e) vh_fail ("new-failed", "src_callback_new: %d", e) ;
		total = 0 ; how = "callback" ;
		long ex = rndi (g, 1, 5000) ;
		for (;;)
		{	long want = vh_block (g, st_out, ex) ; if (want > (long) (N * r) + 16) want = (long) (N * r) + 16 ;
			long n = vh_read (st, ch, r, want, &out) ;
			total += n ;
			if (n < want)
			{	if (!c.ended) vh_fail ("ended-early", "read returned %ld of %ld frames before the callback ended the input (position %ld of %ld)", n, want, c.pos, N) ;
				break ;
				}
			}
		if (c.pos != N) vh_fail ("unused", "the stream ended with %ld of %ld frames asked for", c.pos, N) ;
		for (int i = 0 ; i < 3 ; i++)
		{	long n = vh_read (st, ch, r, rndi (g, 1, 2000), NULL) ;
			if (n) vh_fail ("after-end", "%ld more frames after a short read", n) ;
			}
		vh_delete (st) ; cbsrc_done (&c) ;
		}
	expected_total (conv, N, r, &lo, &hi) ;
	if (total < lo || total > hi) vh_fail ("total", "%ld input frames at ratio %.17g gave %ld output frames, expected %.3f +-1 (%s)", N, r, total, N * r, how) ;
	model m = { x, N, ch, conv } ;
	vh_stat ("model_checks", model_sample (g, &m, r, &out, peak, 2, 6, "end-frames")) ;
	vh_stat ("frames_in", N) ; vh_stat ("frames_out", total) ;
	vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + api * 100000 + (N == 0) * 31 + (N < conv_reach (conv, r)) * 57 + (N > conv_buflen (conv)) * 91) ;
	if (idx < 20) vh_sample ("%s ch=%d ratio=%.6g N=%ld api=%d (%s): %ld frames out for N*r=%.3f", conv_name [conv], ch, r, N, api, how, total, N * r) ;
	fv_free (&out) ;
}

/* C02: frame accounting of every call, and equality of the re-presented stream with the stream given whole. */
#include "vh.h"
const char *vh_prop = "C02" ;
long vh_ncases (int t) { return t ? 60000 : 12000 ; }

void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 400 : 128) ;
	double r = pick_ratio (g), budget = vh_light ? 1e6 : vh_thorough ? 6e6 : 3e6 ;
	long N = pick_N (g, conv, ch, r, budget) ;
	int kind = rndi (g, 0, 9) ;
	float *x = make_signal (g, chance (g, 0.7) ? SIG_NOISE : SIG_MIXED, N, ch) ;
	double peak = peak_of (x, N * ch) ;
	fvec ref = { 0 }, out = { 0 } ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld kind=%d", conv_name [conv], ch, r, N, kind) ;
	vh_steps (400000) ;
	if (kind < 6)
	{	/* any division into calls */
		sched s ; pick_sched (g, &s, N, r) ;
		ref_stream (conv, ch, x, N, r, &ref) ;
		SRC_STATE *st = vh_new (conv, ch) ; long calls = 0 ;
		vh_stream (st, ch, x, N, r, &s, &out, &calls) ;
		vh_delete (st) ;
		cmp_streams (conv, ch, r, &ref, &out, peak, near_tie (r, N) ? 1 : 0, "representing", sched_str (&s)) ;
		model m = { x, N, ch, conv } ;
		vh_stat ("model_checks", model_sample (g, &m, r, &out, peak, 6, 2, "model")) ;
		vh_stat ("calls", calls) ; vh_stat ("frames_in", N) ; vh_stat ("frames_out", out.n / ch) ;
		vh_sig (conv * 1000003ull + ch * 4099 + ratio_classi (r) * 17 + s.in_style * 1000 + s.out_style * 100 + s.eoi_style * 7919) ;
		if (idx < 20) vh_sample ("%s ch=%d ratio=%.6g N=%ld %s: %ld calls, %ld frames out, all accounted", conv_name [conv], ch, r, N, sched_str (&s), calls, out.n / ch) ;
		}
	else if (kind == 6)
	{	/* src_simple with too little, exact or ample room */
		double e = N * r ; long outf = chance (g, 0.5) ? (long) (e * rndu (g)) : (long) e + rndi (g, -2, 20) ;
		if (outf < 0) outf = 0 ;
		ref_stream (conv, ch, x, N, r, &ref) ;
		cres c = vh_simple (conv, ch, x, N, outf, r, (int) rndi (g, 0, 1), &out) ;
		long want = ref.n / ch < outf ? ref.n / ch : outf ;
		if (labs (c.gen - want) > 1) vh_fail ("simple-count", "src_simple generated %ld of %ld frames, expected %ld", c.gen, outf, want) ;
		if (outf > ref.n / ch && c.used != N) vh_fail ("simple-used", "src_simple reports %ld of %ld input frames used although the output had room", c.used, N) ;
		fvec a = ref ; a.n = out.n < a.n ? out.n : a.n ;
		cmp_streams (conv, ch, r, &a, &out, peak, 1, "simple-representing", "src_simple and src_process") ;
		vh_stat ("calls", 1) ; vh_stat ("frames_in", N) ; vh_stat ("frames_out", c.gen) ;
		vh_sig (conv * 31337ull + ch * 17 + (c.gen == outf) + 4 * ratio_classi (r)) ;
		}
	else if (kind == 7)
	{	/* every call may see only part of the input: count how much output the presented input can justify */
		SRC_STATE *st = vh_new (conv, ch) ; sched s ; pick_sched (g, &s, N, r) ;
		long pos = 0, tot = 0, calls = 0 ;
		while (pos < N && calls < 3000)
		{	long inf = vh_block (&s.g, s.in_style, s.exact), outf = vh_block (&s.g, s.out_style, s.exact) ;
			if (inf > N - pos) inf = N - pos ;
			long amp = (long) (N * r) + 10 ; if (outf > amp) outf = amp ;
			cres c = vh_process (st, ch, x + pos * ch, inf, outf, r, 0, &out) ;
			long seen = pos + inf ;
			pos += c.used ; tot += c.gen ; calls ++ ;
			if (tot > seen * r + 1 + 1e-6 * (1 + r)) vh_fail ("before-presented", "%ld frames generated after only %ld input frames were presented (ratio %.17g)", tot, seen, r) ;
			}
		vh_delete (st) ;
		model m = { x, N, ch, conv } ; double half = conv_reach (conv, r) ;
		/* without end of input only frames whose whole reach was presented may have been emitted: they equal the final stream */
		vh_stat ("model_checks", model_sample (g, &m, r, &out, peak, 6, 3, "model")) ;
		long lim = (long) ((N - half - 2) * r) ; if (lim > 0 && pos == N && tot > N * r + 1) vh_fail ("too-many", "%ld frames", tot) ;
		vh_stat ("calls", calls) ; vh_stat ("frames_in", N) ; vh_stat ("frames_out", tot) ;
		vh_sig (conv * 77777ull + ch * 13 + s.in_style * 10 + s.out_style + 100 * ratio_classi (r)) ;
		}
	else
	{	/* ratio changing between calls, also mid-stream set_ratio: accounting only (vh_process checks every call) */
		SRC_STATE *st = vh_new (conv, ch) ; long pos = 0, calls = 0 ; double cur = r, minr = r, b = budget ;
		sched s ; pick_sched (g, &s, N, 1) ; vh_null_when_empty = (int) rndi (g, 0, 1) ;
		for (int i = 0 ; i < 400 && b > 0 ; i++)
		{	if (chance (g, 0.3)) cur = pick_ratio (g) ; if (chance (g, 0.02)) src_set_ratio (st, cur) ;
			if (cur < minr) minr = cur ;
			double cost = conv_cost (conv, ch, minr) ; long mo = (long) (b / cost / 2) + 1 ;
			long inf = vh_block (&s.g, s.in_style, s.exact), outf = vh_block (&s.g, s.out_style, s.exact) ;
			if (inf > N - pos) inf = N - pos ;
			if (outf > mo) outf = mo ; if (outf * ch > 1000000) outf = 1000000 / ch ; if (chance (g, 0.05)) outf = 0 ;
			int eoi = pos + inf == N ;
			cres c = vh_process (st, ch, x + pos * ch, inf, outf, cur, eoi, NULL) ;
			pos += c.used ; calls ++ ; b -= c.gen * cost + inf * ch * 0.5 + 100 ;
			if (eoi && c.gen == 0 && outf > 0 && c.used == inf) break ;
			vh_stat ("frames_in", c.used) ; vh_stat ("frames_out", c.gen) ;
			}
		vh_delete (st) ; vh_stat ("calls", calls) ;
		vh_sig (conv * 5555557ull + ch * 13 + s.in_style * 10 + s.out_style) ;
		}
	fv_free (&ref) ; fv_free (&out) ;
}

/* C06: clones against an independent twin that ran the same history. */
#include "script.h"
const char *vh_prop = "C06" ;
long vh_ncases (int t) { return t ? 30000 : 9000 ; }
void vh_init (void) { script_init (1) ; }
#define MAXOPS 60
static op hist [MAXOPS], cont [MAXOPS], other [MAXOPS] ;
static SRC_STATE *clone_of (subj *from, subj *to)
{	int e = -7 ;
	subj **slot = from->slot ;
	*to = *from ; to->slot = slot ;	/* callbacks keep the user pointer of the original */
	to->st = src_clone (from->st, &e) ;
	if (!to->st || e) vh_fail ("clone-failed", "src_clone gave %p error %d", (void *) to->st, e) ;
	if (to->st == from->st) vh_fail ("clone-same", "src_clone returned the same handle") ;
	return to->st ;
}
void vh_case (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 200 : 128), cb = chance (g, 0.4) ;
	double b = vh_light ? 5e4 : 2e5 ;
	int nh = gen_script (g, conv, ch, cb, chance (g, 0.15) ? 0 : (int) rndi (g, 1, 30), b, 0, hist) ;
	int nc = gen_script (g, conv, ch, cb, (int) rndi (g, 3, 30), b, 0, cont) ;
	int no = gen_script (g, conv, ch, cb, (int) rndi (g, 1, 20), b, 0, other) ;
	int mode = rndi (g, 0, 5) ;
	subj a, c, t, d ; memset (&d, 0, sizeof d) ; blog la = { 0 }, lc = { 0 }, lt = { 0 }, ld = { 0 }, junk = { 0 } ;
	vh_note ("%s ch=%d %s, %d operations, clone, %d more, mode %d", conv_name [conv], ch, cb ? "callback" : "process", nh, nc, mode) ;
	subj_init (&a, g, conv, ch, cb) ;
	t = a ; subj_open (&t) ;		/* the twin: a second converter that gets the same calls */
	run_ops (&a, hist, 0, nh, &junk) ; run_ops (&t, hist, 0, nh, &junk) ;
	clone_of (&a, &c) ;
	subj a0 = a ;
	switch (mode)
	{	case 0 :	/* original first, then the clone, then compare all three */
			run_ops (&a, cont, 0, nc, &la) ; run_ops (&c, cont, 0, nc, &lc) ; break ;
		case 1 :	/* interleaved operation by operation */
			for (int i = 0 ; i < nc ; i++)
			{	if (i & 1) { run_ops (&a, cont, i, i + 1, &la) ; run_ops (&c, cont, i, i + 1, &lc) ; }
				else { run_ops (&c, cont, i, i + 1, &lc) ; run_ops (&a, cont, i, i + 1, &la) ; }
				}
			break ;
		case 2 :	/* the original does something else (incl. resets, other data), then is deleted; then the clone runs */
			a.off += 12345 ; run_ops (&a, other, 0, no, &junk) ;
			if (chance (g, 0.5)) src_reset (a.st) ;
			vh_delete (a.st) ; a.st = NULL ;
			*a.slot = &c ; run_ops (&c, cont, 0, nc, &lc) ; break ;
		case 3 :	/* the clone does something else and is deleted; then the original runs */
			c.off += 54321 ; run_ops (&c, other, 0, no, &junk) ;
			if (chance (g, 0.5)) src_reset (c.st) ;
			vh_delete (c.st) ; c.st = NULL ;
			run_ops (&a, cont, 0, nc, &la) ; break ;
		case 4 :	/* both live, the other one disturbed between the operations of the one that is checked */
			for (int i = 0, j = 0 ; i < nc ; i++)
			{	run_ops (&c, cont, i, i + 1, &lc) ;
				if (j < no) { run_ops (&a, other, j, j + 1, &junk) ; j++ ; }
				}
			break ;
		default :	/* clone of the clone; the middle one deleted first */
			clone_of (&c, &d) ;
			vh_delete (c.st) ; c.st = NULL ;
			run_ops (&d, cont, 0, nc, &ld) ; run_ops (&a, cont, 0, nc, &la) ; break ;
		}
	(void) a0 ;
	run_ops (&t, cont, 0, nc, &lt) ;
	if (mode == 0 || mode == 1 || mode == 3 || mode == 5) log_same (&la, &lt, "original-affected", "original after cloning and the twin that was never cloned") ;
	if (mode == 0 || mode == 1 || mode == 2 || mode == 4) log_same (&lc, &lt, "clone-differs", "clone and the twin") ;
	if (mode == 5) log_same (&ld, &lt, "clone-differs", "clone of the clone and the twin") ;
	if (chance (g, 0.5)) { if (a.st) vh_delete (a.st) ; if (c.st) vh_delete (c.st) ; }
	else { if (c.st) vh_delete (c.st) ; if (a.st) vh_delete (a.st) ; }
	if (d.st) vh_delete (d.st) ;
	vh_delete (t.st) ;
	vh_stat ("operations", nh + nc) ; vh_stat ("clones", 1 + (mode == 5)) ; vh_stat ("frames_compared", lt.frames) ; vh_stat ("log_bytes_compared", lt.n) ;
	if (lt.frames) vh_sig (conv * 1000003ull + ch * 31 + cb * 7 + mode * 13 + script_sig (hist, nh) * 3 + script_sig (cont, nc)) ;
	if (idx < 20) vh_sample ("%s ch=%d %s: clone after %d operations, %d more in mode %d, %ld frames bit-identical to the twin", conv_name [conv], ch, cb ? "callback" : "process", nh, nc, mode, lt.frames) ;
	log_free (&la) ; log_free (&lc) ; log_free (&lt) ; log_free (&ld) ; log_free (&junk) ;
}

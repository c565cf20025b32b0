/* Scripted histories: a list of operations that is run on any converter; everything the library returns goes to a log. */
#ifndef SCRIPT_H
#define SCRIPT_H
#include "vh.h"
enum { OP_PROCESS, OP_READ, OP_SETRATIO, OP_RESET, OP_ERRCALL, OP_QUERY, OP_KINDS } ;
typedef struct { int what, eoi, nul, bad ; long inf, outf ; double r ; } op ;
typedef struct { unsigned char *v ; long n, cap ; long frames ; } blog ;
typedef struct subj
{	SRC_STATE *st ; int conv, ch, cb ;
	long off, pos ;			/* stream data: pool + off, frame position */
	long cpos, cN ; uint64_t cseed ; long ccount ; int cstyle ; int cnull ;	/* callback source */
	struct subj **slot ;	/* user data of the callback: points to the converter being run */
	struct subj *slot_v ;
	int junk ; rng lay ; 	/* layout perturbation: pads filled with junk around the presented data (-1: exact buffers) */
} subj ;
extern float *script_pool ; extern long script_pool_n ;
extern int script_log_error ;
extern int *script_track ;	/* if set: raised to 1 exactly while the library runs */
void script_init (int wild) ;
void subj_init (subj *s, rng *g, int conv, int ch, int cb) ;	/* creates the converter; slot is &s->slot_v, so s must not move */
void subj_open (subj *s) ;
/* fresh stream data parameters copied from another subject (so that both see the same data) */
void subj_same_data (subj *d, const subj *s) ;
enum { SC_NOERR = 1, SC_NORESET = 2, SC_CONST = 4 } ;
int gen_script (rng *g, int conv, int ch, int cb, int maxops, double budget, int flags, op *ops) ;
void run_ops (subj *s, const op *ops, int from, int to, blog *log) ;
void log_free (blog *l) ;
void log_same (const blog *a, const blog *b, const char *key, const char *what) ;
uint64_t script_sig (const op *ops, int n) ;
#endif

/* C20: what a call does besides computing.  Every public function is wrapped at link time; while one runs, system calls trap (syscall user
** dispatch), allocations and libc functions with effects are caught, the stack below is painted and the floating point state is watched. */
#define _GNU_SOURCE
#include "script.h"
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>
#include <xmmintrin.h>
const char *vh_prop = "C20" ;
long vh_ncases (int t) { return t ? 40000 : 8000 ; }
enum { NOMEM, MEM } ;		/* may the call allocate and free? */
#define STACK_LIMIT 65536
#define PAINT (STACK_LIMIT * 2)
#define FTZ_DAZ 0x8040u
/* other settings a caller may have: rounding down, up or to zero, exceptions of the x87 unit unmasked, its precision reduced */
static uint32_t any_csr (rng *g) ;
static uint16_t any_cw (rng *g) ;
char c20_in_lib __attribute__ ((visibility ("hidden"))) ;
static volatile char selector ; static int have_dispatch ;
static const char *cur = "" ; static int cur_mem ; static char *base ; static long deepest ;
static uint32_t caller_csr, lib_csr_bits ; static uint16_t caller_cw, lib_cw, outer_cw ; static double watched, sys_mem, max_stack ;
static const char *pending ; static char pending_buf [200] ;

/* ---- the floating point state ---- */
static uint16_t x87_cw (void) { uint16_t w ; __asm__ volatile ("fnstcw %0" : "=m" (w)) ; return w ; }
static int x87_in_use (void) { struct { uint32_t w [7] ; } e ; __asm__ volatile ("fnstenv %0\n\tfldenv %0" : "+m" (e)) ; return (e.w [2] & 0xffff) != 0xffff ; }

/* ---- stack ---- */
static __attribute__ ((noinline)) void paint (void)
{	char *sp = __builtin_frame_address (0) ; uint64_t *a = (uint64_t *) (((uintptr_t) base - PAINT) & ~63ul), *b = (uint64_t *) (((uintptr_t) sp - 512) & ~63ul) ;
	for (; a < b ; a++) * (volatile uint64_t *) a = 0xA5A5A5A5A5A5A5A5ull ;
}
static __attribute__ ((noinline)) void scan (void)
{	uint64_t *a = (uint64_t *) (((uintptr_t) base - PAINT) & ~63ul), *b = (uint64_t *) ((uintptr_t) base & ~63ul) ;
	while (a < b && * (volatile uint64_t *) a == 0xA5A5A5A5A5A5A5A5ull) a ++ ;
	long d = base - (char *) a ; if (d > deepest) deepest = d ;
}
/* ---- entering and leaving the library ---- */
#define ERRNO_SENTINEL 7654
static inline __attribute__ ((always_inline)) void enter_again (void)
{	paint () ;
	errno = ERRNO_SENTINEL ;
	caller_csr = _mm_getcsr () ; outer_cw = x87_cw () ; caller_cw = lib_cw ? lib_cw : outer_cw ; __asm__ volatile ("fldcw %0" : : "m" (caller_cw)) ;
	_mm_setcsr ((caller_csr & ~0x3fu) | lib_csr_bits) ;
	c20_in_lib = 1 ; selector = have_dispatch ? SYSCALL_DISPATCH_FILTER_BLOCK : SYSCALL_DISPATCH_FILTER_ALLOW ;
}
static inline __attribute__ ((always_inline)) void leave_shortly (void)
{	selector = SYSCALL_DISPATCH_FILTER_ALLOW ; c20_in_lib = 0 ;
	uint32_t csr = _mm_getcsr () ; int en = errno ;
	_mm_setcsr (caller_csr) ;
	if (!pending && cur_mem == NOMEM && en != ERRNO_SENTINEL) { snprintf (pending_buf, sizeof pending_buf, "%s set errno to %d", cur, en) ; pending = "errno" ; }
	if (!pending && (csr & ~0x3fu) != ((caller_csr & ~0x3fu) | lib_csr_bits)) { snprintf (pending_buf, sizeof pending_buf, "%s changed MXCSR to %04x", cur, csr) ; pending = "fp-control" ; }
	if (!pending && x87_cw () != caller_cw) { snprintf (pending_buf, sizeof pending_buf, "%s changed the x87 control word", cur) ; pending = "fp-control" ; }
	if (!pending && x87_in_use ()) { snprintf (pending_buf, sizeof pending_buf, "%s left x87 registers in use", cur) ; pending = "fp-control" ; __asm__ volatile ("fninit") ; }
	__asm__ volatile ("fldcw %0" : : "m" (outer_cw)) ;
	scan () ;
}
static void after (void)
{	watched ++ ;
	if (deepest > max_stack) max_stack = deepest ;
	if (pending) { const char *p = pending ; pending = NULL ; vh_fail (p, "%s", pending_buf) ; }
	if (deepest > STACK_LIMIT) vh_fail ("stack", "%s used %s%ld bytes of stack", cur, deepest >= PAINT ? "more than " : "", deepest) ;
}
#define INTO(name, mem) base = __builtin_frame_address (0) ; cur = name ; cur_mem = mem ; deepest = 0 ; enter_again ()
#define OUT() leave_shortly () ; after ()

/* the callback runs outside */
typedef struct { src_callback_t f ; void *u ; } tramp ;
static tramp tramps [64] ; static int ntramps ;
static long trampoline (void *v, float **data)
{	tramp *t = v ; char *b = base ; const char *c = cur ; long d ;
	leave_shortly () ; d = deepest ;
	long n = t->f (t->u, data) ;
	base = b ; cur = c ; cur_mem = NOMEM  ; deepest = d ;
	enter_again () ;
	return n ;
}
#define W(ret, name, mem, params, args) ret __real_##name params ; ret __wrap_##name params ; ret __wrap_##name params { INTO (#name, mem) ; ret result_ = __real_##name args ; OUT () ; return result_ ; }
#define WV(name, params, args) void __real_##name params ; void __wrap_##name params ; void __wrap_##name params { INTO (#name, NOMEM) ; __real_##name args ; OUT () ; }
W (SRC_STATE *, src_new, MEM, (int t, int ch, int *e), (t, ch, e))
W (SRC_STATE *, src_clone, MEM, (SRC_STATE *s, int *e), (s, e))
W (SRC_STATE *, src_delete, MEM, (SRC_STATE *s), (s))
W (int, src_process, NOMEM, (SRC_STATE *s, SRC_DATA *d), (s, d))
W (long, src_callback_read, NOMEM, (SRC_STATE *s, double r, long n, float *p), (s, r, n, p))
W (int, src_simple, MEM, (SRC_DATA *d, int t, int ch), (d, t, ch))
W (const char *, src_get_name, NOMEM, (int t), (t))
W (const char *, src_get_description, NOMEM, (int t), (t))
W (const char *, src_get_version, NOMEM, (void), ())
W (int, src_set_ratio, NOMEM, (SRC_STATE *s, double r), (s, r))
W (int, src_get_channels, NOMEM, (SRC_STATE *s), (s))
W (int, src_reset, NOMEM, (SRC_STATE *s), (s))
W (int, src_is_valid_ratio, NOMEM, (double r), (r))
W (int, src_error, NOMEM, (SRC_STATE *s), (s))
W (const char *, src_strerror, NOMEM, (int e), (e))
WV (src_short_to_float_array, (const short *a, float *b, int n), (a, b, n))
WV (src_float_to_short_array, (const float *a, short *b, int n), (a, b, n))
WV (src_int_to_float_array, (const int *a, float *b, int n), (a, b, n))
WV (src_float_to_int_array, (const float *a, int *b, int n), (a, b, n))
SRC_STATE *__real_src_callback_new (src_callback_t f, int t, int ch, int *e, void *u) ;
SRC_STATE *__wrap_src_callback_new (src_callback_t f, int t, int ch, int *e, void *u) ;
SRC_STATE *__wrap_src_callback_new (src_callback_t f, int t, int ch, int *e, void *u)
{	tramp *k = NULL ; if (f) { k = &tramps [ntramps++ % 64] ; k->f = f ; k->u = u ; }
	INTO ("src_callback_new", MEM) ; SRC_STATE *s = __real_src_callback_new (f ? trampoline : NULL, t, ch, e, k) ; OUT () ; return s ;
}

/* ---- allocation ---- */
static void no_more (const char *what)
{	if (!c20_in_lib || cur_mem == MEM) return ;
	c20_in_lib = 0 ; selector = SYSCALL_DISPATCH_FILTER_ALLOW ; _mm_setcsr (caller_csr) ; vh_fail ("allocates", "%s calls %s", cur, what) ;
}
void *__real_malloc (size_t) ; void *__real_calloc (size_t, size_t) ; void *__real_realloc (void *, size_t) ; void __real_free (void *) ;
void *__real_aligned_alloc (size_t, size_t) ; int __real_posix_memalign (void **, size_t, size_t) ; char *__real_strdup (const char *) ;
void *__wrap_malloc (size_t n) { no_more ("malloc") ; return __real_malloc (n) ; }
void *__wrap_calloc (size_t a, size_t b) { no_more ("calloc") ; return __real_calloc (a, b) ; }
void *__wrap_realloc (void *p, size_t n) { no_more ("realloc") ; return __real_realloc (p, n) ; }
void *__wrap_aligned_alloc (size_t a, size_t n) { no_more ("aligned_alloc") ; return __real_aligned_alloc (a, n) ; }
int __wrap_posix_memalign (void **p, size_t a, size_t n) { no_more ("posix_memalign") ; return __real_posix_memalign (p, a, n) ; }
char *__wrap_strdup (const char *s) { no_more ("strdup") ; return __real_strdup (s) ; }
void __wrap_free (void *p) { if (p) no_more ("free") ; __real_free (p) ; }

/* ---- functions with effects: generated stubs check the flag and go on ---- */
void c20_effect (const char *what) __attribute__ ((visibility ("hidden"), used)) ;
void c20_effect (const char *what)
{	c20_in_lib = 0 ; selector = SYSCALL_DISPATCH_FILTER_ALLOW ; _mm_setcsr (caller_csr) ; vh_fail ("effect", "%s calls %s", cur, what) ; }
#define EFFECT(f) __asm__ (".text\n\t.globl __wrap_" #f "\n\t.type __wrap_" #f ",@function\n__wrap_" #f ":\n\tcmpb $0, c20_in_lib(%rip)\n\tje 1f\n\tlea 2f(%rip), %rdi\n\tand $-16, %rsp\n\tcall c20_effect\n" \
	"1:\tjmp __real_" #f "@PLT\n\t.section .rodata\n2:\t.string \"" #f "\"\n\t.text\n") ;
#include "c20.h"
EFFECTS (EFFECT)

/* ---- system calls ---- */
__asm__ (".text\n\t.globl c20_restorer\nc20_restorer:\n\tmov $15, %eax\n\tsyscall\n\t.globl c20_restorer_end\nc20_restorer_end:\n\tnop\n\tnop\n") ;
extern char c20_restorer [], c20_restorer_end [] ;
static void on_sys (int sig, siginfo_t *si, void *v)
{	ucontext_t *u = v ; greg_t *r = u->uc_mcontext.gregs ; long nr = si->si_syscall ; (void) sig ;
	selector = SYSCALL_DISPATCH_FILTER_ALLOW ;
	int fine = cur_mem == MEM && (nr == SYS_brk || nr == SYS_munmap || nr == SYS_mremap || nr == SYS_madvise || nr == SYS_mprotect || nr == SYS_futex || nr == SYS_getrandom ||
			(nr == SYS_mmap && (int) r [REG_R8] == -1)) ;
	if (!fine) { c20_in_lib = 0 ; _mm_setcsr (caller_csr) ; vh_fail ("system-call", "%s makes system call number %ld", cur, nr) ; }
	sys_mem ++ ;
	register long r10 __asm__ ("r10") = r [REG_R10], r8 __asm__ ("r8") = r [REG_R8], r9 __asm__ ("r9") = r [REG_R9] ; long res ;
	__asm__ volatile ("syscall" : "=a" (res) : "a" (nr), "D" (r [REG_RDI]), "S" (r [REG_RSI]), "d" (r [REG_RDX]), "r" (r10), "r" (r8), "r" (r9) : "rcx", "r11", "memory") ;
	r [REG_RAX] = res ;
	selector = SYSCALL_DISPATCH_FILTER_BLOCK ;
}
void vh_outside (void) { c20_in_lib = 0 ; selector = SYSCALL_DISPATCH_FILTER_ALLOW ; }
static void trap_syscalls (void)
{	struct { void *handler ; unsigned long flags ; void *restorer ; unsigned long mask ; } sa = { (void *) on_sys, SA_SIGINFO | SA_NODEFER | SA_ONSTACK | 0x04000000, c20_restorer, 0 } ;
	stack_t st ; memset (&st, 0, sizeof st) ; st.ss_size = 1 << 18 ; st.ss_sp = mmap (0, st.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) ;
	if (st.ss_sp == MAP_FAILED || sigaltstack (&st, NULL)) { perror ("sigaltstack") ; exit (2) ; }
	if (syscall (SYS_rt_sigaction, SIGSYS, &sa, NULL, 8)) { perror ("sigaction") ; exit (2) ; }
	have_dispatch = prctl (PR_SET_SYSCALL_USER_DISPATCH, PR_SYS_DISPATCH_ON, (unsigned long) c20_restorer, (unsigned long) (c20_restorer_end - c20_restorer + 1), &selector) == 0 ;
}
void vh_init (void) { script_init (1) ; trap_syscalls () ; }
void vh_fini (void) { vh_stat ("calls_watched", watched) ; vh_stat ("memory_system_calls", sys_mem) ; vh_stat (have_dispatch ? "processes_with_trapped_system_calls" : "processes_without_trapped_system_calls", 1) ; }
static void clean (void *a) { (void) a ; vh_outside () ; lib_csr_bits = 0 ; lib_cw = 0 ; pending = NULL ; }

static uint32_t any_csr (rng *g) { static const uint32_t v [] = { 0, FTZ_DAZ, 0x2000, 0x4000, 0x6000, 0x8000, 0xe040, 0 } ; return v [rndi (g, 0, 7)] ; }
static uint16_t any_cw (rng *g) { static const uint16_t v [] = { 0, 0x27f, 0x37f, 0x77f, 0xb7f, 0xf7f, 0x07f } ; return v [rndi (g, 0, 6)] ; }
/* ---- workloads ---- */
static op ops [80] ;
static void histories (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 400 : 128), cb = chance (g, 0.5) ; subj s ; blog l = { 0 } ;
	int n = gen_script (g, conv, ch, cb, (int) rndi (g, 2, 50), 2e5, 0, ops), k = (int) rndi (g, 0, n) ;
	if (chance (g, 0.6)) { lib_csr_bits = conv >= ZOH ? any_csr (g) : chance (g, 0.5) ? FTZ_DAZ : 0 ; lib_cw = any_cw (g) ; }
	vh_note ("%s ch=%d %s, %d operations", conv_name [conv], ch, cb ? "callback" : "process", n) ;
	subj_init (&s, g, conv, ch, cb) ; run_ops (&s, ops, 0, k, &l) ;
	if (chance (g, 0.5)) { int e ; SRC_STATE *c = src_clone (s.st, chance (g, 0.5) ? &e : NULL) ; if (!c) vh_fail ("clone-failed", "no clone") ; vh_delete (s.st) ; s.st = c ; }
	run_ops (&s, ops, k, n, &l) ; vh_delete (s.st) ;
	vh_stat ("frames", l.frames) ; vh_sig (conv * 1000003ull + ch * 31 + cb * 7 + script_sig (ops, n)) ;
	if (idx < 30) vh_sample ("%s ch=%d, %d operations (%s): no system call, allocation or effect, %g bytes of stack at most", conv_name [conv], ch, n, cb ? "callback" : "process", max_stack) ;
	log_free (&l) ;
}
/* denormals flushed: the same result */
static void streams (rng *g, long idx)
{	int conv = pick_conv (g), ch = pick_channels (g, conv, conv >= ZOH ? 200 : 128), ftz = chance (g, 0.5), kind ; double r = pick_ratio (g) ; long N = pick_N (g, conv, ch, r, 3e5) ;
	do kind = (int) rndi (g, 0, SIG_ZERO) ; while (kind == SIG_HUGE) ;
	float *x = make_signal (g, kind, N, ch) ; fvec y = { 0 }, z = { 0 } ; sched s ; pick_sched (g, &s, N, r) ;
	vh_note ("%s ch=%d ratio=%.17g N=%ld%s", conv_name [conv], ch, r, N, ftz ? " denormals flushed" : "") ; vh_steps (500000) ;
	if (ftz) ref_stream (conv, ch, x, N, r, &y) ;
	if (ftz) lib_csr_bits = FTZ_DAZ ;
	if (chance (g, 0.3)) vh_simple (conv, ch, x, N, (long) (N * r) + 20, r, 1, &z) ;
	else { SRC_STATE *st = vh_new (conv, ch) ; vh_stream (st, ch, x, N, r, &s, &z, NULL) ; if (chance (g, 0.3)) src_reset (st) ; vh_delete (st) ; }
	lib_csr_bits = 0 ; 
	if (ftz)
	{	double pk = peak_of (x, N * ch) ; if (pk < 1e-30) pk = 1e-30 ;
		cmp_streams (conv, ch, r, &y, &z, pk, 1, "flushed-denormals", "with and without denormals") ; vh_stat ("flushed_streams", 1) ;
		}
	vh_stat ("streams", 1) ; vh_sig (conv * 1000003ull + ch * 31 + ratio_classi (r) * 65537 + s.in_style * 11 + s.out_style * 77 + kind * 1009 + 5) ;
	if (idx < 30) vh_sample ("%s ch=%d ratio=%.6g N=%ld: no effects%s", conv_name [conv], ch, r, N, ftz ? ", same result with denormals flushed" : "") ;
	fv_free (&y) ; fv_free (&z) ;
}
static void arrays (rng *g)
{	int n = (int) (chance (g, 0.3) ? rndi (g, 0, 200000) : rndi (g, 0, 3000)) ; static float f [200001] ; static short s [200001] ; static int i [200001] ;
	vh_note ("conversion of %d values", n) ;
	for (int k = 0 ; k < n ; k++) { f [k] = (float) (rndu (g) * 2.4 - 1.2) ; i [k] = (int) rnd (g) ; s [k] = (short) i [k] ; }
	if (chance (g, 0.6)) { lib_csr_bits = any_csr (g) ; lib_cw = any_cw (g) ; }
	switch (rndi (g, 0, 3)) { case 0 : src_float_to_short_array (f, s, n) ; break ; case 1 : src_float_to_int_array (f, i, n) ; break ; case 2 : src_short_to_float_array (s, f, n) ; break ; default : src_int_to_float_array (i, f, n) ; break ; }
	lib_csr_bits = 0 ; vh_stat ("values", n) ; vh_sig (n * 3ull + 1) ;
}
static long cb0 (void *u, float **d) { (void) u ; (void) d ; return 0 ; }
static void oddities (rng *g)
{	float a [64], b [64] ; memset (a, 0, sizeof a) ; int e ; SRC_DATA d ;
	vh_note ("errors and queries") ; lib_csr_bits = chance (g, 0.5) ? FTZ_DAZ : 0 ; lib_cw = any_cw (g) ;
	for (int k = 0 ; k < 60 ; k++)
	{	memset (&d, 0, sizeof d) ; d.data_in = a ; d.data_out = b ; d.src_ratio = chance (g, 0.5) ? 1 : pick_ratio (g) ; d.input_frames = rndi (g, -2, 30) ; d.output_frames = rndi (g, -2, 30) ;
		int t = (int) rndi (g, -1, 6), ch = (int) rndi (g, -1, 3) ; SRC_STATE *s = chance (g, 0.5) ? src_new (t, ch, chance (g, 0.5) ? &e : NULL) : src_callback_new (chance (g, 0.9) ? cb0 : NULL, t, ch, &e, NULL) ;
		switch (rndi (g, 0, 9))
		{	case 0 : src_process (s, NULL) ; break ;
			case 1 : d.src_ratio = NAN ; src_process (s, &d) ; break ;
			case 2 : d.data_in = NULL ; src_process (s, &d) ; break ;
			case 3 : d.data_out = a + 1 ; if (ch <= 2) src_process (s, &d) ; break ;
			case 4 : src_callback_read (s, 500, 5, b) ; src_callback_read (s, 1, 5, b) ; break ;
			case 5 : if (ch == 1) src_simple (&d, t, ch) ; else src_simple (NULL, t, ch) ; break ;
			case 6 : src_set_ratio (s, rndu (g) * 300) ; src_clone (NULL, &e) ; break ;
			default : if (ch <= 2) src_process (s, &d) ; break ;
			}
		if (s) { src_error (s) ; src_get_channels (s) ; src_reset (s) ; if (chance (g, 0.3)) src_delete (src_clone (s, &e)) ; }
		src_error (NULL) ; src_get_channels (NULL) ; src_reset (NULL) ; src_strerror ((int) rndi (g, -5, 40)) ; src_get_name (t) ; src_get_description (t) ; src_get_version () ; src_is_valid_ratio (rndu (g) * 300) ;
		src_delete (s) ;
		}
	vh_stat ("odd_calls", 60) ; vh_sig (rnd (g)) ;
}
/* much of everything: the stack must not notice */
static void large (rng *g)
{	int conv = chance (g, 0.7) ? (chance (g, 0.5) ? ZOH : LINEAR) : pick_conv (g), ch = conv >= ZOH ? (int) rndi (g, 1000, 60000) : (int) rndi (g, 100, 128) ; long N = 400000 / ch + 1, M = 1 + (long) (rndu (g) * 400000 / ch) ;
	if (conv < ZOH) { N = rndi (g, 1, 3000) ; M = rndi (g, 1, 30) ; }
	vh_note ("%s ch=%d", conv_name [conv], ch) ;
	float *x = make_signal (g, SIG_NOISE, N, ch) ; SRC_STATE *st = vh_new (conv, ch), *c ; int e ;
	for (int k = 0 ; k < 3 ; k++) vh_process (st, ch, x, N, M, pick_ratio_range (g, 0.3, 3), k == 2, NULL) ;
	c = src_clone (st, &e) ; src_reset (st) ; vh_delete (st) ; if (c) vh_delete (c) ; 
	vh_stat ("wide_cases", 1) ; vh_sig (conv * 1000003ull + ch) ;
}
void vh_case (rng *g, long idx)
{	vh_cleanup (clean, NULL) ;
	switch (rndi (g, 0, 19))
	{	case 0 : oddities (g) ; break ;
		case 1 : case 2 : arrays (g) ; break ;
		case 3 : large (g) ; break ;
		case 4 : case 5 : case 6 : case 7 : case 8 : case 9 : streams (g, idx) ; break ;
		default : histories (g, idx) ; break ;
		}
}

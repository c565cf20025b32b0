/* functions of the C library whose use has effects, or depends on something, outside the converter */
#define EFFECTS(X) \
	X (printf) X (fprintf) X (vprintf) X (vfprintf) X (puts) X (fputs) X (putchar) X (fputc) \
	X (putc) X (fwrite) X (perror) X (fflush) X (fopen) X (open) X (read) X (write) \
	X (close) X (remove) X (unlink) X (rename) X (system) X (popen) X (getenv) X (secure_getenv) \
	X (setenv) X (unsetenv) X (putenv) X (time) X (clock) X (clock_gettime) X (gettimeofday) X (localtime) \
	X (gmtime) X (rand) X (srand) X (random) X (srandom) X (drand48) X (lrand48) X (setlocale) \
	X (exit) X (_exit) X (quick_exit) X (atexit) X (signal) X (sigaction) X (raise) X (kill) \
	X (longjmp) X (fork) X (usleep) X (nanosleep) X (sleep) X (sched_yield) X (pthread_create) X (fesetround) \
	X (fesetenv) X (feenableexcept) X (feclearexcept) X (dlopen) X (sysconf) X (isatty)

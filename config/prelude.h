/* Included before everything else when the library is built as for another processor: the system headers are read first, as for this one. */
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <float.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#include <immintrin.h>
#ifdef LONG32
typedef long long64 ;
#define long int
#else
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#ifdef AS_I386
#define __i386__ 1
#define ENABLE_SSE2_LRINT
#undef __SSE2__
#endif
#endif

/* the builds of the library that are linked together; the table is generated by run.py */
#include "api.h"
typedef struct { const char *name ; const api_t *api ; const char *so ; const char *cpu ; int best, medium, fast, maxch, exact ; } build_t ;
extern const build_t builds [] ; extern const int nbuilds ;
/* programs compiled with the public header and linked with the shared library, or why that is impossible */
typedef struct { const char *how, *so, *why ; } user_t ;
extern const user_t users [] ; extern const int nusers ;

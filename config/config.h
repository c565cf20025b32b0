/* Mirror of the configuration that /opt/vp/build.sh generates for /repo (no high quality coefficients,
** both other sinc converters on), so that the checks need no cmake run. */
#define PACKAGE "libsamplerate"
#define VERSION "0.2.2"
#define CPU_CLIPS_NEGATIVE 0
#define CPU_CLIPS_POSITIVE 0
#define CPU_IS_BIG_ENDIAN 0
#define CPU_IS_LITTLE_ENDIAN 1
#define HAVE_STDBOOL_H
#ifndef BARE
#define HAVE_IMMINTRIN_H
#define HAVE_UNISTD_H
#define HAVE_VISIBILITY
#endif
#ifndef WITHOUT_FAST
#define ENABLE_SINC_FAST_CONVERTER
#endif
#ifndef WITHOUT_MEDIUM
#define ENABLE_SINC_MEDIUM_CONVERTER
#endif

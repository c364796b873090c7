/* Build configuration used for the simulated library: the one the shipped build
** produces here (/repo/_build/config.h), so that the same code is compiled. */
#define PACKAGE "libsamplerate"
#define VERSION "0.2.2"
#define CPU_CLIPS_NEGATIVE 0
#define CPU_CLIPS_POSITIVE 0
#define CPU_IS_BIG_ENDIAN 0
#define CPU_IS_LITTLE_ENDIAN 1
#define HAVE_IMMINTRIN_H
#define HAVE_LRINT 0
#define HAVE_LRINTF 0
#define HAVE_STDBOOL_H
#define HAVE_STDINT_H 0
#define HAVE_UNISTD_H
#define HAVE_VISIBILITY
#define ENABLE_SINC_FAST_CONVERTER
#define ENABLE_SINC_MEDIUM_CONVERTER

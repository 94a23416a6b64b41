/* configuration used when the checks compile /repo's sources */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_ENDIAN_H 1
#define HAVE_CLOCK_GETTIME 1
#define MY_HAVE_NANOSLEEP 1
#define HAVE_NANOSLEEP 1
#endif

/* A stand-in for the library's asprintf which records the formatted text as tokens:
 * one entry per literal/%c/%s character and one per integer conversion. */
#ifndef VF_ASPRINTF_H_
#define VF_ASPRINTF_H_
#include <stdarg.h>
#include <stdint.h>
#define FMT_MAX 48
struct fmt_tok { int isnum; int zpad; uint64_t val; };
extern struct fmt_tok fmt_tok[FMT_MAX];
extern int fmt_n, fmt_bad, fmt_called;
#endif

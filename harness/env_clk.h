/* Clocks become models. */
#ifndef ENV_CLK_H_
#define ENV_CLK_H_
#include <sys/types.h>
#include <sys/time.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
int vf_clock_gettime(clockid_t, struct timespec *);
int vf_clock_getres(clockid_t, struct timespec *);
int vf_gettimeofday(struct timeval *, void *);
#define clock_gettime(a, b) vf_clock_gettime(a, b)
#define clock_getres(a, b) vf_clock_getres(a, b)
#define gettimeofday(a, b) vf_gettimeofday(a, b)
#endif

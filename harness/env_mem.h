/* System limit queries become models. */
#ifndef ENV_MEM_H_
#define ENV_MEM_H_
#include <sys/types.h>
#include <sys/param.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <assert.h>
#include <errno.h>
#include <stdint.h>
#include <unistd.h>
int vf_getrlimit(int, struct rlimit *);
int vf_sysinfo(struct sysinfo *);
long vf_sysconf(int);
#define getrlimit(a, b) vf_getrlimit((int)(a), b)
#define sysinfo(a) vf_sysinfo(a)
#define sysconf(a) vf_sysconf(a)
#endif

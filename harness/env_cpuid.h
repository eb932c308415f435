/* The cpuid instruction is a model. */
#ifndef ENV_CPUID_H_
#define ENV_CPUID_H_
#include <cpuid.h>
int vf_get_cpuid(unsigned, unsigned, unsigned *, unsigned *, unsigned *, unsigned *);
void vf_cpuid(unsigned, unsigned, unsigned *, unsigned *, unsigned *, unsigned *);
unsigned vf_cpuid_max(unsigned, unsigned *);
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) vf_cpuid(l, 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) vf_cpuid(l, s, &(a), &(b), &(c), &(d))
#define __get_cpuid(l, a, b, c, d) vf_get_cpuid(l, 0, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) vf_get_cpuid(l, s, a, b, c, d)
#define __get_cpuid_max(l, p) vf_cpuid_max(l, p)
#endif

/*
 * C30: which features are reported, for every answer of the cpuid instruction.
 */
#include "cpusupport.h"
#include "vf.h"

static unsigned maxleaf, leaf1[4], leaf7[4];
void
vf_cpuid(unsigned l, unsigned s, unsigned * a, unsigned * b, unsigned * c, unsigned * d)
{
	const unsigned * v;
	unsigned junk[4], i;

	for (i = 0; i < 4; i++)
		junk[i] = vf_u32();
	v = junk;
	if (l == 0)
		junk[0] = maxleaf;
	else if (l == 1 && vf_fork(maxleaf >= 1))
		v = leaf1;
	else if (l == 7 && s == 0 && vf_fork(maxleaf >= 7))
		v = leaf7;
	*a = v[0];
	*b = v[1];
	*c = v[2];
	*d = v[3];
}
unsigned
vf_cpuid_max(unsigned l, unsigned * sig)
{

	if (sig != NULL)
		*sig = vf_u32();
	return (l == 0 ? maxleaf : vf_u32());
}
int
vf_get_cpuid(unsigned l, unsigned s, unsigned * a, unsigned * b, unsigned * c, unsigned * d)
{

	if (vf_fork(maxleaf == 0) || vf_fork(maxleaf < l))
		return (0);
	vf_cpuid(l, s, a, b, c, d);
	return (1);
}
static void
one(int got, int is)
{

	VASSERT(!got || is, "a feature is reported only when cpuid reports it");
	if (vf_fork(got != 0))
		VREACH("a feature");
}
void
vf_harness(void)
{
	unsigned i, k;

	maxleaf = vf_u32();
	for (i = 0; i < 4; i++) {
		leaf1[i] = vf_u32();
		leaf7[i] = vf_u32();
	}
	for (k = 0; k < 2; k++) {
		switch (vf_concrete(vf_u8() % 5)) {
		case 0:
			one(cpusupport_x86_aesni(), maxleaf >= 1 && (leaf1[2] >> 25 & 1));
			break;
		case 1:
			one(cpusupport_x86_rdrand(), maxleaf >= 1 && (leaf1[2] >> 30 & 1));
			break;
		case 2:
			one(cpusupport_x86_sse2(), maxleaf >= 1 && (leaf1[3] >> 26 & 1));
			break;
		case 3:
			one(cpusupport_x86_ssse3(), maxleaf >= 1 && (leaf1[2] >> 9 & 1));
			break;
		default:
			one(cpusupport_x86_shani(), maxleaf >= 7 && (leaf7[1] >> 29 & 1));
		}
	}
	VREACH("end");
}

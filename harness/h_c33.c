/* C33: insecure_memzero zeroes exactly the given bytes, in optimized code. */
#include <stdlib.h>
#include <string.h>
#include "insecure_memzero.h"
#include "vf.h"
#if MODE == 0
static uint8_t buf[MAXN + 48], was[MAXN + 48];
void
vf_harness(void)
{
	size_t off = 16 + (size_t)vf_concrete(vf_u8() & 15), len = vf_concrete(vf_u64() % (MAXN + 1)), i;

	vf_array(was, sizeof(was));
	memcpy(buf, was, sizeof(buf));
	insecure_memzero(&buf[off], len);
	for (i = 0; i < sizeof(buf); i++) {
		if (i >= off && i < off + len)
			VASSERT(buf[i] == 0, "every given byte is zero");
		else
			VASSERT(buf[i] == was[i], "no other byte changes");
	}
	if (len == MAXN)
		VREACH("longest");
}
#elif MODE == 1
#ifndef BIGN
#define BIGN 66000
#endif
static uint8_t buf[BIGN + 32];
void
vf_harness(void)
{
	size_t i;

	memset(buf, 0x55, sizeof(buf));
	vf_array(&buf[10], 64);
	insecure_memzero(&buf[16], BIGN);
	for (i = 16; i < BIGN + 16; i++)
		VASSERT(buf[i] == 0, "every given byte is zero");
	VASSERT(buf[BIGN + 16] == 0x55, "no other byte changes");
	VREACH("end");
}
#else
#ifdef VF_NATIVE
static uint8_t * where;
static size_t howmuch;
#endif
static uint8_t secret[100];
/* Uses a secret and wipes its copy before returning. */
__attribute__((noinline)) static uint8_t
use(size_t n)
{
	uint8_t local[100], r = 0;
	size_t i;

	memcpy(local, secret, n);
	for (i = 0; i < n; i++)
		r ^= local[i];
#ifdef VF_NATIVE
	where = local;
	howmuch = n;
#endif
	insecure_memzero(local, n);
	return (r);
}
__attribute__((noinline)) static uint8_t
useheap(size_t n)
{
	uint8_t * p = malloc(n), r = 0;
	size_t i;

	if (p == NULL)
		return (0);
	memcpy(p, secret, n);
	for (i = 0; i < n; i++)
		r ^= p[i];
	insecure_memzero(p, n);
	free(p);
	return (r);
}
#ifdef VF_NATIVE
__attribute__((no_sanitize("address")))
static void
still(void)
{
	size_t i;

	for (i = 0; i < howmuch; i++)
		if (where[i] == secret[i] && secret[i] != 0)
			VASSERT(0, "the wiped buffer holds the secret");
}
#else
#define still() do { } while (0)
#endif
void
vf_harness(void)
{
	static const size_t sizes[] = {24, 32, 33, 64, 100};
	uint8_t r = 0;
	int i;

	vf_secret(secret, sizeof(secret));
	vf_watch_secrets(1);
	for (i = 0; i < 5; i++) {
		r ^= use(sizes[i]);
		still();
		r ^= useheap(sizes[i]);
	}
	vf_watch_secrets(0);
	(void)r;
	VREACH("end");
}
#endif

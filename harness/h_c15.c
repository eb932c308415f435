/*
 * C15: the SHA-256 compression function of each implementation against FIPS
 * 180-4, for every state and block.
 * MODE 0: portable (through the public interface); 1: SSE2; 2: SHANI.
 * C30, MODE 3: which of them is used.
 */
#include <stdlib.h>
#include <string.h>
#include "sha256.h"
#include "sha256_shani.h"
#include "sha256_sse2.h"
#include "insecure_memzero.h"
#include "vf.h"
#include "ref_sha256.h"

static void
wipe(volatile void * p, size_t n)
{

	memset((void *)(uintptr_t)p, 0, n);
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

#if MODE == 3
static int has[3], bad[2], nhw[2];
static void
hw(int k, uint32_t s[8], const uint8_t b[64])
{

	nhw[k]++;
	fips(s, b);
	if (bad[k])
		s[bad[k] - 1] ^= 0x80000000;
}
void
SHA256_Transform_shani(uint32_t state[static restrict 8], const uint8_t block[static restrict 64])
{

	VASSERT(has[0] && has[1], "SHA-NI code only where there are SHA-NI and SSSE3");
	hw(0, state, block);
}
void
SHA256_Transform_sse2(uint32_t state[static restrict 8], const uint8_t block[static restrict 64], uint32_t W[static restrict 64], uint32_t S[static restrict 8])
{

	VASSERT(has[2], "SSE2 code only where there is SSE2");
	memset(W, 0x5a, 256);
	memset(S, 0x5a, 32);
	hw(1, state, block);
}
#define CPU(f, v) int cpusupport_x86_ ## f ## _present_1, cpusupport_x86_ ## f ## _init_1; int cpusupport_x86_ ## f ## _detect_1(void) { return (v); }
CPU(shani, has[0])
CPU(ssse3, has[1])
CPU(sse2, has[2])
void libcperciva_warnx(const char * f, ...) { (void)f; }
void libcperciva_warn(const char * f, ...) { (void)f; }
static const uint8_t abc[32] = {
	0xba, 0x78, 0x16, 0xbf, 0x8f, 0x01, 0xcf, 0xea, 0x41, 0x41, 0x40, 0xde, 0x5d, 0xae, 0x22, 0x23,
	0xb0, 0x03, 0x61, 0xa3, 0x96, 0x17, 0x7a, 0x9c, 0xb4, 0x10, 0xff, 0x61, 0xf2, 0x00, 0x15, 0xad
};
void
vf_harness(void)
{
	SHA256_CTX ctx;
	uint8_t d[32];
	int i, k, used;

	for (i = 0; i < 3; i++)
		has[i] = vf_fork(vf_bool()) ? 1 : 0;
	for (i = 0; i < 2; i++)
		bad[i] = vf_fork(vf_bool()) ? 0 : vf_fork(vf_bool()) ? 1 : vf_fork(vf_bool()) ? 5 : 8;
	for (k = 0; k < 2; k++) {
		SHA256_Init(&ctx);
		nhw[0] = nhw[1] = 0;
		SHA256_Update(&ctx, "abc", 3);
		SHA256_Final(d, &ctx);
		for (i = 0; i < 32; i++)
			VASSERT(d[i] == abc[i], "the digest of abc");
		VASSERT(!bad[0] || !nhw[0], "SHA-NI code that failed its test is not used");
		VASSERT(!bad[1] || !nhw[1], "SSE2 code that failed its test is not used");
		if (k == 0)
			used = (nhw[0] ? 1 : 0) | (nhw[1] ? 2 : 0);
		else
			VASSERT(used == ((nhw[0] ? 1 : 0) | (nhw[1] ? 2 : 0)), "the choice is made once");
	}
	if (used == 1)
		VREACH("SHA-NI");
	else if (used == 2)
		VREACH("SSE2");
	else if (used == 0)
		VREACH("portable");
	else
		VASSERT(0, "one implementation");
}
#else
void
vf_harness(void)
{
	static uint8_t bx[64 + 16], sx[32 + 8 + 8];
	uint32_t st[8], want[8], * s;
	uint8_t b[64], * bp;
	uint32_t w;
	size_t i, off;
#if MODE == 0
	SHA256_CTX ctx;
#else
	uint32_t W[64], S[8];
#endif

	for (i = 0; i < 8; i++)
		want[i] = st[i] = vf_u32();
	for (i = 0; i < 16; i++) {
		w = vf_u32();
		b[4 * i] = (uint8_t)(w >> 24);
		b[4 * i + 1] = (uint8_t)(w >> 16);
		b[4 * i + 2] = (uint8_t)(w >> 8);
		b[4 * i + 3] = (uint8_t)w;
	}
	fips(want, b);
	off = vf_concrete(vf_u8() % 2) ? 3 : 0;
	memset(bx, 0x77, sizeof(bx));
	bp = &bx[off];
	memcpy(bp, b, 64);
	s = (uint32_t *)(uintptr_t)&sx[4];
	memset(sx, 0x5a, sizeof(sx));
	memcpy(s, st, 32);
#if MODE == 0
	SHA256_Init(&ctx);
	memcpy(ctx.state, st, 32);
	SHA256_Update(&ctx, bp, 64);
	memcpy(s, ctx.state, 32);
	VASSERT(ctx.count == 512, "the block is counted");
#elif MODE == 1
	SHA256_Transform_sse2(s, bp, W, S);
#else
	(void)W;
	(void)S;
	SHA256_Transform_shani(s, bp);
#endif
	for (i = 0; i < 8; i++)
		VASSERT(s[i] == want[i], "the new state is FIPS 180-4's");
	vf_assert_same(bp, b, 64, "the block is only read");
	for (i = 0; i < 4; i++)
		VASSERT(sx[i] == 0x5a && sx[36 + i] == 0x5a, "only the state is written");
	VREACH("end");
}
#endif

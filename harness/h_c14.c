/*
 * C14: ROMix against RFC 7914, for every block content.
 * IMPL 0: the portable implementation; 1: SSE2.
 * RR, NN: the parameters.
 */
#include <stdint.h>
#include <string.h>
#include "crypto_scrypt_smix.h"
#include "crypto_scrypt_smix_sse2.h"
#include "vf.h"

#define WORDS (32 * RR)
#define ROT(a, b) (((a) << (b)) | ((a) >> (32 - (b))))
#define ALIGNED __attribute__((aligned(64)))
static ALIGNED uint8_t B[128 * RR + 64];
static ALIGNED uint8_t V[128 * RR * NN];
static ALIGNED uint8_t XY[256 * RR + 64];

/* RFC 7914, by the book. */
static uint32_t rX[WORDS], rT[WORDS], rV[NN][WORDS];
static void
quarter(uint32_t * x, int a, int b, int c, int d)
{
	uint32_t t;

	t = x[a] + x[d];
	x[b] ^= ROT(t, 7);
	t = x[b] + x[a];
	x[c] ^= ROT(t, 9);
	t = x[c] + x[b];
	x[d] ^= ROT(t, 13);
	t = x[d] + x[c];
	x[a] ^= ROT(t, 18);
}
static void
salsa(uint32_t b[16])
{
	uint32_t x[16];
	int i, k;

	memcpy(x, b, 64);
	for (i = 0; i < 4; i++) {
		for (k = 0; k < 4; k++)
			quarter(x, 5 * k % 16, (5 * k + 4) % 16, (5 * k + 8) % 16, (5 * k + 12) % 16);
		for (k = 0; k < 4; k++)
			quarter(x, 5 * k, 4 * k + (k + 1) % 4, 4 * k + (k + 2) % 4, 4 * k + (k + 3) % 4);
	}
	for (i = 0; i < 16; i++)
		b[i] += x[i];
}
static void
blockmix(uint32_t * b)
{
	uint32_t t[16];
	size_t i, k;

	memcpy(t, &b[(2 * RR - 1) * 16], 64);
	for (i = 0; i < 2 * RR; i++) {
		for (k = 0; k < 16; k++)
			t[k] ^= b[i * 16 + k];
		salsa(t);
		memcpy(&rT[(i / 2 + (i % 2) * RR) * 16], t, 64);
	}
	memcpy(b, rT, 128 * RR);
}
static void
romix(void)
{
	size_t i, j, k;

	for (i = 0; i < NN; i++) {
		memcpy(rV[i], rX, 128 * RR);
		blockmix(rX);
	}
	for (i = 0; i < NN; i++) {
		j = rX[(2 * RR - 1) * 16] % NN;
		for (k = 0; k < WORDS; k++)
			rX[k] ^= rV[j][k];
		blockmix(rX);
	}
}

void
vf_harness(void)
{
	uint32_t w;
	size_t i;

	for (i = 0; i < WORDS; i++)
		rX[i] = vf_u32();
	memcpy(B, rX, 128 * RR);	/* little-endian words */
	memset(&B[128 * RR], 0x5a, 64);
#if IMPL == 1
	crypto_scrypt_smix_sse2(B, RR, NN, V, XY);
#else
	crypto_scrypt_smix(B, RR, NN, V, XY);
#endif
	romix();
	for (i = 0; i < WORDS; i++) {
		memcpy(&w, &B[4 * i], 4);
		VASSERT(w == rX[i], "the block is RFC 7914's scryptROMix of the block");
	}
	for (i = 0; i < 64; i++)
		VASSERT(B[128 * RR + i] == 0x5a, "only the block is written");
	VREACH("end");
}

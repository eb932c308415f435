/*
 * C19: AES-CTR.  The AES block function is an arbitrary function of key and
 * block.  HW: 0 or 1 (what crypto_aes_can_use_intrinsics reports).
 * MODE 0: from the start; 1: from an arbitrary position.
 */
#include <stdlib.h>
#include <string.h>
#if MODE == 1
#include <assert.h>
#include "crypto_aes.h"
#include "sysendian.h"
#include "crypto_aesctr_shared.c"
#endif
#include <emmintrin.h>
#include "crypto_aes.h"
#include "crypto_aes_aesni_m128i.h"
#include "crypto_aesctr.h"
#include "insecure_memzero.h"
#include "vf.h"

/* insecure_memzero wipes (C33). */
static void
wipe(volatile void * p, size_t n)
{

	memset((void *)(uintptr_t)p, 0, n);
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

static uint8_t keys[2][8];
static int hwblocks, swblocks;
static void
aes(const uint8_t in[16], uint8_t out[16], const void * key)
{
	uint8_t x[17];
	uint32_t w[4];
	int k;

	for (k = 0; k < 2 && key != keys[k]; k++)
		continue;
	VASSERT(k < 2, "the stream's key is used");
	memcpy(x, in, 16);
	x[16] = (uint8_t)k;
	vf_uf("aes", w, 4, x, 17);
	memcpy(out, w, 16);
}
void
crypto_aes_encrypt_block(const uint8_t in[16], uint8_t out[16], const struct crypto_aes_key * key)
{

	swblocks++;
	aes(in, out, key);
}
__m128i
crypto_aes_encrypt_block_aesni_m128i(__m128i in, const void * key)
{
	uint8_t a[16], b[16];

	VASSERT(HW, "AES-NI code only with AES-NI");
	hwblocks++;
	_mm_storeu_si128((__m128i *)a, in);
	aes(a, b, key);
	return (_mm_loadu_si128((const __m128i *)b));
}
int
crypto_aes_can_use_intrinsics(void)
{

	return (HW);
}

/* The keystream. */
static void
keystream(int k, uint64_t nonce, uint64_t blk, uint8_t out[16])
{
	uint8_t x[16];
	int i;

	for (i = 0; i < 8; i++) {
		x[i] = (uint8_t)(nonce >> (56 - 8 * i));
		x[8 + i] = (uint8_t)(blk >> (56 - 8 * i));
	}
	aes(x, out, keys[k]);
}
#if LONG == 2
#define MAXCALL (16 * 4100)
#else
#define MAXCALL (16 * 260)
#endif
static uint8_t inb[MAXCALL], outb[MAXCALL + 16];
static uint64_t blk0;	/* position of the stream's start */
static uint8_t ks[16];
static uint64_t ksat = UINT64_MAX;
/* One call at position pos of the stream. */
static void
check(const uint8_t * in, const uint8_t * o, int k, uint64_t nonce, uint64_t pos, size_t n)
{
	size_t i;

	ksat = UINT64_MAX;
	for (i = 0; i < n; i++) {
		if (ksat != (pos + i) / 16) {
			ksat = (pos + i) / 16;
			keystream(k, nonce, blk0 + ksat, ks);
		}
		VASSERT(o[i] == (in[i] ^ ks[(pos + i) % 16]), "byte i is xored with byte i mod 16 of AES(nonce || i div 16)");
	}
}
static void
call(struct crypto_aesctr * s, int k, uint64_t nonce, uint64_t pos, size_t n, int inplace)
{
	size_t i;

	memset(outb, 0x33, n + 16);
	if (inplace) {
		memcpy(outb, inb, n);
		crypto_aesctr_stream(s, outb, outb, n);
	} else {
		crypto_aesctr_stream(s, inb, outb, n);
	}
	check(inb, outb, k, nonce, pos, n);
	for (i = n; i < n + 16; i++)
		VASSERT(outb[i] == 0x33, "only the requested bytes are written");
}
static size_t
pick(size_t n)
{

	return (vf_concrete(vf_u16() % (n + 1)));
}

#if MODE == 0
#ifndef LONG
#define LONG 0
#endif
void
vf_harness(void)
{
	struct crypto_aesctr * s;
	uint64_t nonce = vf_u64(), nonce2 = vf_u64(), pos = 0;
	size_t a, b, c, i;
	int inplace = vf_fork(vf_bool());

	vf_array(inb, sizeof(inb) < 4096 ? sizeof(inb) : sizeof(inb));
	memset(outb, 0x33, sizeof(outb));
	s = crypto_aesctr_init((const struct crypto_aes_key *)keys[0], nonce);
	VASSERT(s != NULL, "a stream");
#if LONG == 2
	call(s, 0, nonce, 0, 5, 1);
	call(s, 0, nonce, 5, 16 * 4097 + 3, 1);
	call(s, 0, nonce, 5 + 16 * 4097 + 3, 30, 1);
	VREACH("long");
#elif LONG
	/* to just before the counter's first byte carry */
	call(s, 0, nonce, 0, 16 * 254, inplace);
	pos = 16 * 254;
	a = pick(3) * 8;
	call(s, 0, nonce, pos, a, inplace);
	pos += a;
	a = 8 + pick(3) * 8;
	call(s, 0, nonce, pos, a, inplace);
	pos += a;
	call(s, 0, nonce, pos, 40, inplace);
	VREACH("carry");
	(void)b;
	(void)c;
	(void)i;
	(void)nonce2;
#else
	a = pick(LEN1);
	b = pick(LEN2);
	c = 33;
	call(s, 0, nonce, pos, a, inplace);
	pos += a;
	call(s, 0, nonce, pos, b, inplace);
	pos += b;
	call(s, 0, nonce, pos, c, inplace);
	if (a == 5 || b == 17) {
		/* restart: the same key or another */
		int k = vf_fork(vf_bool());

		crypto_aesctr_init2(s, k ? (const struct crypto_aes_key *)keys[1] : NULL, nonce2);
		call(s, k, nonce2, 0, 19, inplace);
		call(s, k, nonce2, 19, 16, inplace);
		VREACH("restarted");
		/* a second stream is independent, the one-shot function equal */
		if (!inplace) {
			memset(outb, 0x33, 80);
			crypto_aesctr_buf((const struct crypto_aes_key *)keys[1 - k], nonce, inb, outb, b);
			check(inb, outb, 1 - k, nonce, 0, b);
			for (i = b; i < b + 16; i++)
				VASSERT(outb[i] == 0x33, "only the requested bytes are written");
			call(s, k, nonce2, 35, 18, inplace);
		}
	}
	crypto_aesctr_free(s);
	crypto_aesctr_free(NULL);
	VREACH("end");
#endif
#if HW
	if (hwblocks)
		VREACH("hardware");
#else
	VASSERT(hwblocks == 0, "no AES-NI");
#endif
}
#else
/* Where a stream is after blk0 whole blocks. */
void
vf_harness(void)
{
	struct crypto_aesctr * s;
	uint64_t nonce = vf_u64();
	uint64_t k = vf_u64() >> 8;
	size_t a, b, i;
	uint8_t x[16];

	vf_array(inb, 80);
	memset(outb, 0x33, sizeof(outb));
	s = crypto_aesctr_init((const struct crypto_aes_key *)keys[0], nonce);
	VASSERT(s != NULL, "a stream");
	VASSUME(k >= 1);
	/* the last block generated was k - 1 */
	for (i = 0; i < 8; i++)
		s->pblk[8 + i] = (uint8_t)((k - 1) >> (56 - 8 * i));
	s->bytectr = k * 16;
	blk0 = k;
#ifdef LEN1
	a = pick(LEN1);
	b = pick(LEN2);
#else
	{
		static const uint8_t as[3] = {0, 3, 16}, bs[3] = {0, 13, 30};

		a = as[pick(2)];
		b = bs[pick(2)];
	}
#endif
	call(s, 0, nonce, 0, a, 0);
	call(s, 0, nonce, a, b, 0);
	call(s, 0, nonce, a + b, 17, 0);
	(void)x;
	VREACH("end");
}
#endif

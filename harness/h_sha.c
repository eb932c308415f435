/*
 * C16, C17: SHA-256, HMAC-SHA256 and PBKDF2 over an arbitrary compression
 * function (FIPS 180-4's for known inputs, so that self-tests pass).
 * MODE 0: splits; 1: one-shot; 2: long messages; 3: HMAC; 4: PBKDF2.
 */
#include <stdlib.h>
#include <string.h>
#include "sha256.h"
#include "sha256_shani.h"
#include "sha256_sse2.h"
#include "insecure_memzero.h"
#include "vf.h"

/* insecure_memzero wipes (C33). */
static void
wipe(volatile void * p, size_t n)
{

	memset((void *)(uintptr_t)p, 0, n);
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

#include "ref_sha256.h"
static void
compress(uint32_t s[8], const uint8_t b[64])
{
#ifndef VF_NATIVE
	uint8_t x[96];
	int i, sym = 0;

	for (i = 0; i < 8 && !sym; i++)
		sym = vf_symbolic(s[i]);
	for (i = 0; i < 64 && !sym; i++)
		sym = vf_symbolic(b[i]);
	if (sym) {
		memcpy(x, s, 32);
		memcpy(&x[32], b, 64);
		vf_uf("sha", s, 8, x, 96);
		return;
	}
#endif
	fips(s, b);
}
static int nshani;
#if MODE == 5
static SHA256_CTX * hctx;
static uint64_t hold, hlen;
static int huge;
#endif
void
SHA256_Transform_shani(uint32_t state[static restrict 8], const uint8_t block[static restrict 64])
{

	nshani++;
#if MODE == 5
	if (huge) {
		/*
		 * The first block of a very long update.  The length may have
		 * been added to the count already, or not yet (at all, or not
		 * for more than this block).
		 */
		VASSERT(hctx->count == 8 * hold || hctx->count == 8 * (hold + hlen) || hctx->count == 8 * hold + 512 ||
		    hctx->count == 8 * (hold - hold % 64) + 512, "all bits of a long update are counted");
		VREACH("end");
		VSTOP();
	}
#endif
	compress(state, block);
}
void
SHA256_Transform_sse2(uint32_t state[static restrict 8], const uint8_t block[static restrict 64], uint32_t W[static restrict 64], uint32_t S[static restrict 8])
{

	memset(W, 0x5a, 256);
	memset(S, 0x5a, 32);
	compress(state, block);
}
#define CPU(f, v) int cpusupport_x86_ ## f ## _present_1, cpusupport_x86_ ## f ## _init_1; int cpusupport_x86_ ## f ## _detect_1(void) { return (v); }
#ifdef SSE2
CPU(shani, 0)
#else
CPU(shani, 1)
#endif
CPU(ssse3, 1)
CPU(sse2, 1)
void libcperciva_warnx(const char * f, ...) { (void)f; VASSERT(0, "the self-test passes"); }
void libcperciva_warn(const char * f, ...) { (void)f; VASSERT(0, "the self-test passes"); }

/* SHA-256 by the book, after pre bytes (whole blocks) leading to the state st. */
static void
finish(uint32_t st[8], uint64_t pre, const uint8_t * m, size_t n, uint8_t out[32])
{
	uint8_t b[64];
	size_t i;
	uint64_t bits = (pre + n) * 8;

	for (i = 0; i + 64 <= n; i += 64)
		compress(st, m + i);
	n -= i;
	memset(b, 0, 64);
	memcpy(b, m + i, n);
	b[n] = 0x80;
	if (n >= 56) {
		compress(st, b);
		memset(b, 0, 64);
	}
	for (i = 0; i < 8; i++)
		b[56 + i] = (uint8_t)(bits >> (56 - 8 * i));
	compress(st, b);
	for (i = 0; i < 32; i++)
		out[i] = (uint8_t)(st[i / 4] >> (24 - 8 * (i % 4)));
}
static void
refsha(const uint8_t * m, size_t n, uint8_t out[32])
{
	uint32_t st[8];

	memcpy(st, H0, 32);
	finish(st, 0, m, n, out);
}
#define MSGMAX 600
static uint8_t dig[34], want[32];
static void
guard(void)
{

	memset(dig, 0x3c, sizeof(dig));
}
static void
same(const char * what)
{

	vf_assert_same(&dig[1], want, 32, what);
	VASSERT(dig[0] == 0x3c && dig[33] == 0x3c, "only the digest is written");
}
/* An exactly sized copy: reading beyond it is an error. */
static uint8_t *
exact(const uint8_t * p, size_t n)
{
	uint8_t * q = malloc(n == 0 ? 1 : n);

	if (q == NULL)
		VSTOP();
	memcpy(q, p, n);
	return (n == 0 ? q + 1 : q);
}
static size_t
pick(size_t n)
{

	return (vf_concrete(vf_u16() % (n + 1)));
}
static void
wiped(const void * p, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		VASSERT(((const uint8_t *)p)[i] == 0, "the context is wiped");
}

#if MODE == 0
void
vf_harness(void)
{
	static uint8_t m[MSGMAX];
	SHA256_CTX ctx, other;
	size_t a, b, c;

	vf_array(m, sizeof(m));
	SHA256_Init(&other);
	a = pick(AMAX);
	b = pick(BMAX);
	c = vf_concrete(vf_u8() % 3);
	c = c == 0 ? 0 : c == 1 ? 1 : 128;
#ifndef ALL
	if (a % 16 > 2 && a < 54 && a + b != 55 && a + b != 64 && a + b != 63 && a + b != 56 && b > 1)
		VSTOP();
	if (c != 0 && (a % 7 != 1 || b % 5 > 1))
		VSTOP();
#endif
	SHA256_Init(&ctx);
	SHA256_Update(&ctx, exact(m, a), a);
	SHA256_Update(&ctx, exact(&m[a], b), b);
	if (c == 1)
		/* another computation does not matter */
		SHA256_Init(&other);
	SHA256_Update(&ctx, exact(&m[a + b], c), c);
	guard();
	SHA256_Final(&dig[1], &ctx);
	refsha(m, a + b + c, want);
	same("the digest is SHA-256 of the concatenation");
	wiped(&ctx, sizeof(ctx));
	VREACH("end");
}
#elif MODE == 1
void
vf_harness(void)
{
	static uint8_t m[MSGMAX];
	size_t a;

	vf_array(m, sizeof(m));
	a = pick(NMAX);
	guard();
	SHA256_Buf(exact(m, a), a, &dig[1]);
	refsha(m, a, want);
	same("the one-shot digest is SHA-256 of the message");
	VREACH("end");
}
#elif MODE == 5
/* One very long update: its length is counted in full. */
void
vf_harness(void)
{
	static SHA256_CTX ctx;
	static uint8_t m[64];
	size_t a = pick(3) * 21;
	uint8_t * p;

	vf_array(m, sizeof(m));
	SHA256_Init(&ctx);
	SHA256_Update(&ctx, exact(m, a), a);
	hctx = &ctx;
	hold = a;
	hlen = vf_u64();
	VASSUME(hlen >= 64 && hlen <= ((uint64_t)1 << 33));
	if ((p = malloc(hlen)) == NULL)
		VSTOP();
	huge = 1;
	SHA256_Update(&ctx, p, hlen);
	VASSERT(0, "a long update contains a block");
}
#elif MODE == 2
/* After any number of whole blocks. */
void
vf_harness(void)
{
	static uint8_t m[MSGMAX];
	SHA256_CTX ctx;
	uint32_t st[8];
	uint64_t pre = (vf_u64() >> 16) * 64;
	size_t a, b;

	vf_array(m, sizeof(m));
	vf_array(st, 32);
	SHA256_Init(&ctx);
#ifdef ALL
	a = pick(65);
#else
	a = pick(6);
	a = a < 3 ? a : a < 5 ? 52 + a : 58 + a;
#endif
	b = pick(1) * 70;
	SHA256_Init(&ctx);
	ctx.count = pre * 8;
	memcpy(ctx.state, st, 32);
	SHA256_Update(&ctx, exact(m, a), a);
	SHA256_Update(&ctx, exact(&m[a], b), b);
	guard();
	SHA256_Final(&dig[1], &ctx);
	finish(st, pre, m, a + b, want);
	same("the digest of a long message");
	VREACH("end");
}
#else
static void
refhmac(const uint8_t * k, size_t kl, const uint8_t * m, size_t n, uint8_t out[32])
{
	uint8_t kb[64], in[64 + MSGMAX], h[32], o[96];
	size_t i;

	memset(kb, 0, 64);
	if (kl > 64)
		refsha(k, kl, kb);
	else
		memcpy(kb, k, kl);
	for (i = 0; i < 64; i++)
		in[i] = kb[i] ^ 0x36;
	memcpy(&in[64], m, n);
	refsha(in, 64 + n, h);
	for (i = 0; i < 64; i++)
		o[i] = kb[i] ^ 0x5c;
	memcpy(&o[64], h, 32);
	refsha(o, 96, out);
}
#endif
#if MODE == 3
void
vf_harness(void)
{
	static uint8_t m[MSGMAX], k[KMAX + 1];
	HMAC_SHA256_CTX ctx;
	size_t kl, a, b;
	static const uint8_t as[6] = {0, 1, 55, 56, 64, 100};

	vf_array(m, 256);
	vf_array(k, KMAX);
	kl = pick(KMAX);
	a = as[pick(5)];
	if (a > 1 && kl % 9 != 1 && kl != 64 && kl != 65)
		VSTOP();
	b = a == 1 ? 65 : a == 100 ? 28 : 3;
	HMAC_SHA256_Init(&ctx, exact(k, kl), kl);
	HMAC_SHA256_Update(&ctx, exact(m, a), a);
	HMAC_SHA256_Update(&ctx, exact(&m[a], b), b);
	guard();
	HMAC_SHA256_Final(&dig[1], &ctx);
	refhmac(k, kl, m, a + b, want);
	same("HMAC-SHA256 of the concatenation");
	wiped(&ctx, sizeof(ctx));
	guard();
	HMAC_SHA256_Buf(exact(k, kl), kl, exact(m, a + b), a + b, &dig[1]);
	same("one-shot HMAC-SHA256");
	if (kl > 64)
		VREACH("long key");
	else
		VREACH("short key");
}
#elif MODE == 4
#define OMAX 8300
static void
pbkdf2(size_t pl, size_t sl, uint64_t c, size_t n)
{
	static uint8_t pw[160], salt[300], sx[320], out[OMAX + 2], ref[OMAX + 32], u[32], v[32];
	uint32_t i;
	uint64_t j;
	size_t k;

	vf_array(pw, pl);
	vf_array(salt, sl);
	memset(out, 0x3c, sizeof(out));
	PBKDF2_SHA256(exact(pw, pl), pl, exact(salt, sl), sl, c, &out[1], n);
	for (i = 0; (size_t)i * 32 < n; i++) {
		memcpy(sx, salt, sl);
		sx[sl] = (uint8_t)((i + 1) >> 24);
		sx[sl + 1] = (uint8_t)((i + 1) >> 16);
		sx[sl + 2] = (uint8_t)((i + 1) >> 8);
		sx[sl + 3] = (uint8_t)(i + 1);
		refhmac(pw, pl, sx, sl + 4, u);
		memcpy(&ref[i * 32], u, 32);
		for (j = 1; j < c; j++) {
			refhmac(pw, pl, u, 32, v);
			memcpy(u, v, 32);
			for (k = 0; k < 32; k++)
				ref[i * 32 + k] ^= u[k];
		}
	}
	for (k = 0; k < n; k += 1024)
		vf_assert_same(&out[1 + k], &ref[k], n - k < 1024 ? n - k : 1024, "PBKDF2's first dkLen bytes");
	VASSERT(out[0] == 0x3c && out[n + 1] == 0x3c, "only dkLen bytes are written");
}
void
vf_harness(void)
{
	size_t pl = 8, sl = 32, n = 64;
	uint64_t c = 1;

#if VAR == 0
	n = pick(100);
	c = 1 + (n % 5 == 3);
#elif VAR == 1
	pl = pick(70);
	sl = pl > 62 ? 40 : 5;
	n = 40;
#elif VAR == 2
	sl = pick(130);
	n = 33;
#elif VAR == 3
	c = 1 + pick(4);
	n = 70;
#else
	/* more than 256 blocks would need more than a byte of the block number */
	n = VAR == 4 ? 8 * 32 + 1 : 257 * 32 + 1;
	sl = 128;
#endif
	pbkdf2(pl, sl, c, n);
	VREACH("end");
}
#endif

/*
 * C20: crypto_entropy_read is HMAC_DRBG (SP 800-90A) instantiated from 48
 * entropy bytes, reseeded with 32 after every 256 generate calls of at most
 * 65536 bytes, and never succeeds without the entropy it needs.
 * HMAC-SHA256 is an uninterpreted function of key and message.
 *
 * WARM: number of 1-byte requests made first (with working entropy);
 * NREQ: requests that follow, of symbolic length up to MAXREQ (or exactly
 * BIG bytes), with an entropy source that may fail.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "crypto_entropy.h"
#include "entropy.h"
#include "insecure_memzero.h"
#include "sha256.h"
#include "vf.h"

#define MAXENT 64
static struct ent { uint8_t b[48]; size_t n; int ok; int isrd; } ent[MAXENT];
static unsigned int nent, rent;
static int may_fail, rdrand;

static void
hmac(const void * K, size_t Klen, const void * m, size_t n, uint8_t out[32])
{
	uint8_t b[64 + 96];

	VASSERT(Klen == 32 && n <= 96, "HMAC keys have 32 bytes");
	memcpy(b, K, 32);
	memcpy(b + 32, m, n);
	vf_uf("hmac", out, 8, b, 32 + n);
}
#define NC 4
static struct hc { uint8_t K[32]; uint8_t m[96]; size_t n; } hc[NC];
static unsigned int nc;
static struct hc *
get(HMAC_SHA256_CTX * c)
{
	uint32_t t[2];

	memcpy(t, c, 8);
	VASSERT(t[0] == 0xabcd1234 && t[1] < NC, "the HMAC context is initialised");
	return (&hc[t[1]]);
}
void
HMAC_SHA256_Init(HMAC_SHA256_CTX * c, const void * K, size_t Klen)
{
	uint32_t t[2] = {0xabcd1234, nc++ % NC};

	VASSERT(Klen == 32, "HMAC keys have 32 bytes");
	memcpy(c, t, 8);
	memcpy(hc[t[1]].K, K, 32);
	hc[t[1]].n = 0;
}
void
HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * p, size_t n)
{
	struct hc * h = get(c);

	VASSERT(n <= 96 - h->n, "harness: HMAC message length");
	if (n > 0)
		memcpy(h->m + h->n, p, n);
	h->n += n;
}
void
HMAC_SHA256_Final(uint8_t out[32], HMAC_SHA256_CTX * c)
{
	struct hc * h = get(c);

	hmac(h->K, 32, h->m, h->n, out);
	memset(c, 0, 8);
}
void
HMAC_SHA256_Buf(const void * K, size_t Klen, const void * p, size_t n, uint8_t out[32])
{

	hmac(K, Klen, p, n, out);
}
int
entropy_read(uint8_t * buf, size_t n)
{
	struct ent * e = &ent[nent++];

	VASSERT(nent <= MAXENT && n <= 48, "harness: entropy request");
	e->n = n;
	e->isrd = 0;
	e->ok = !(may_fail && vf_fork(vf_bool()));
	/* A failed read may have filled in anything. */
	vf_array(e->b, 48);
	memcpy(buf, e->b, n);
	return (e->ok ? 0 : -1);
}
#ifdef RDRAND
int cpusupport_x86_rdrand_present_1, cpusupport_x86_rdrand_init_1;
int cpusupport_x86_rdrand_detect_1(void) { return (rdrand); }
int
generate_seed_rdrand(unsigned int * b, size_t n)
{
	struct ent * e = &ent[nent++];

	VASSERT(nent <= MAXENT && n <= 12, "harness: rdrand request");
	e->n = n * 4;
	e->isrd = 1;
	e->ok = !(may_fail && vf_fork(vf_bool()));
	vf_array(e->b, 48);
	memcpy(b, e->b, n * 4);
	return (e->ok ? 0 : 1);
}
#endif

/* Reference: SP 800-90A HMAC_DRBG and the reseed rule. */
static uint8_t RK[32], RV[32];
static unsigned int rcount;
static int rinst;
static void
rupdate(const uint8_t * d, size_t n)
{
	uint8_t m[33 + 48];

	memcpy(m, RV, 32);
	m[32] = 0;
	if (n > 0)
		memcpy(m + 33, d, n);
	hmac(RK, 32, m, 33 + n, RK);
	hmac(RK, 32, RV, 32, RV);
	if (n == 0)
		return;
	memcpy(m, RV, 32);
	m[32] = 1;
	memcpy(m + 33, d, n);
	hmac(RK, 32, m, 33 + n, RK);
	hmac(RK, 32, RV, 32, RV);
}
/* The next entropy the real code should have asked for; 0 if it was available. */
static int
rentropy(size_t n)
{
	struct ent * e = &ent[rent];

	VASSERT(rent < nent, "entropy is requested when it is needed");
	rent++;
	VASSERT(!e->isrd && e->n == n, "the amount of fresh entropy");
	if (!e->ok)
		return (-1);
	if (n == 48) {
		memset(RK, 0, 32);
		memset(RV, 1, 32);
	}
	rupdate(e->b, n);
	/* Extra entropy from the processor, where the code uses it. */
	if (rent < nent && ent[rent].isrd) {
		if (ent[rent].ok)
			rupdate(ent[rent].b, ent[rent].n);
		rent++;
	}
	rcount = 0;
	return (0);
}
static int
rread(uint8_t * out, uint64_t n)
{
	uint64_t k, i;

	if (!rinst) {
		if (rentropy(48))
			return (-1);
		rinst = 1;
	}
	for (; vf_fork(n > 0); n -= k, out += k) {
		if (rcount == 256 && rentropy(32))
			return (-1);
		k = vf_fork(n > 65536) ? 65536 : n;
		for (i = 0; vf_fork(i < k); i += 32) {
			hmac(RK, 32, RV, 32, RV);
			memcpy(out + i, RV, vf_fork(k - i < 32) ? k - i : 32);
		}
		rupdate(NULL, 0);
		rcount++;
	}
	return (0);
}

void
vf_harness(void)
{
	unsigned int i;
	uint64_t n, k;
	uint8_t * b, * o;
	int rc, e;

	rdrand = vf_fork(vf_bool());
	may_fail = 0;
	for (i = 0; i < WARM + NREQ; i++) {
		n = 1;
		if (i >= WARM) {
			may_fail = 1;
#ifdef BIG
			n = BIG;
#else
			n = vf_u64();
			VASSUME(n <= MAXREQ);
#endif
		}
		b = malloc(n);
		o = malloc(n);
		rc = crypto_entropy_read(b, n);
		e = rread(o, n);
		VASSERT(rent == nent, "no entropy is requested when it is not due");
		VASSERT((rc == 0) == (e == 0), "fails exactly when needed entropy was not available");
		if (e == 0) {
#ifdef BIG
			for (k = 0; k < n; k += 4096)
				vf_assert_same(b + k, o + k, n - k < 4096 ? n - k : 4096, "output of HMAC_DRBG");
#else
			vf_assert_same(b, o, n, "output of HMAC_DRBG");
#endif
			if (i >= WARM)
				VREACH("output");
		} else
			VREACH("entropy failure");
		(void)k;
		free(b);
		free(o);
	}
}

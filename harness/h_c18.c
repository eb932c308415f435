/*
 * C18: AES.  MODE 0: the AES-NI code; 1: the generic entry points (HW: whether
 * AES-NI is there).  C30, MODE 2: which of the implementations is used.
 */
#include <stdlib.h>
#include <string.h>
#include <openssl/aes.h>
#include "crypto_aes.h"
#include "crypto_aes_aesni.h"
#include "insecure_memzero.h"
#include "vf.h"
#include "ref_aes.h"
#undef abort
#undef malloc
#undef free

static int mayfail, nlive;
#ifdef VF_NATIVE
/* what a replay can see of secrets left in released memory */
static struct { uint8_t * p; size_t n; } blks[64];
static int nblks, watching;
#endif
void *
vf_oom(size_t n)
{
	void * p;

	if (mayfail && vf_fork(vf_bool()))
		return (NULL);
	if ((p = malloc(n)) == NULL)
		VSTOP();
	nlive++;
#ifdef VF_NATIVE
	blks[nblks & 63].p = p;
	blks[nblks++ & 63].n = n;
#endif
	return (p);
}
void
vf_release(void * p)
{

	if (p != NULL)
		nlive--;
#ifdef VF_NATIVE
	for (int i = 0; i < 64; i++)
		if (MODE != 2 && watching && p != NULL && blks[i].p == p)
			for (size_t j = 0; j < blks[i].n; j++)
				VASSERT(((uint8_t *)p)[j] == 0, "storage is released without secrets");
#endif
	free(p);
}

static void
wipe(volatile void * p, size_t n)
{

	memset((void *)(uintptr_t)p, 0, n);
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;
static int nwarn;
void libcperciva_warnx(const char * f, ...) { (void)f; nwarn++; }
void libcperciva_warn(const char * f, ...) { (void)f; nwarn++; }

#if MODE > 0
/* The system's AES. */
static int nset, nenc, setfail, libbad, has, hwbad;
static const uint8_t * wantkey;
static int wantbits, request;
int
AES_set_encrypt_key(const unsigned char * k, const int bits, AES_KEY * key)
{
	uint8_t * p = (uint8_t *)key;

	VASSERT(bits == 128 || bits == 256, "a key length AES has");
	nset++;
	if (request) {
		VASSERT(bits == wantbits, "the key's length in bits");
		vf_assert_same(k, wantkey, (size_t)bits / 8, "the key is passed on");
		if (setfail)
			return (-1);
	}
	memset(p, 0, sizeof(AES_KEY));
	p[0] = (uint8_t)(bits / 8);
	memcpy(&p[1], k, (size_t)bits / 8);
	memcpy(&p[sizeof(AES_KEY) - (size_t)bits / 8], k, (size_t)bits / 8);
	return (0);
}
void
AES_encrypt(const unsigned char * in, unsigned char * out, const AES_KEY * key)
{
	const uint8_t * p = (const uint8_t *)key;

	nenc++;
	VASSERT(p[0] == 16 || p[0] == 32, "a key that was expanded");
	refaes(&p[1], p[0], in, out);
	if (libbad)
		out[libbad - 1] ^= 1;
}
int cpusupport_x86_aesni_present_1, cpusupport_x86_aesni_init_1;
int
cpusupport_x86_aesni_detect_1(void)
{

	return (has);
}
#endif
#if MODE == 2
/* A model of the AES-NI code. */
static int hexp, henc, hfree;
struct hk { int len; uint8_t k[32]; };
void *
crypto_aes_key_expand_aesni(const uint8_t * k, size_t len)
{
	struct hk * h;

	VASSERT(has, "AES-NI only where there is AES-NI");
	VASSERT(len == 16 || len == 32, "a key length AES has");
	hexp++;
	if (hwbad == 1 && !request)
		return (NULL);
	h = vf_oom(sizeof(struct hk));
	h->len = (int)len;
	memcpy(h->k, k, len);
	return (h);
}
void
crypto_aes_encrypt_block_aesni(const uint8_t in[16], uint8_t out[16], const void * key)
{
	const struct hk * h = key;

	VASSERT(has, "AES-NI only where there is AES-NI");
	henc++;
	refaes(h->k, (size_t)h->len, in, out);
	/* wrong in one byte, for the one or the other length of key */
	if (hwbad > 1 && (hwbad & 1) == (h->len == 16))
		out[(hwbad - 2) / 2 & 15] ^= 0x80;
}
void
crypto_aes_key_free_aesni(void * key)
{

	hfree += key != NULL;
	vf_release(key);
}
#endif
static int expect_abort;
void __attribute__((noreturn))
vf_abort(void)
{

	VASSERT(expect_abort, "the program stops only when no implementation computes AES");
	#if MODE == 2
	VREACH("abort");
#endif
	VSTOP();
}

static uint8_t *
exact(const uint8_t * b, size_t n)
{
	uint8_t * p;

	if ((p = malloc(n)) == NULL)
		VSTOP();
	memcpy(p, b, n);
	return (p);
}

void
vf_harness(void)
{
	uint8_t k[32], x[16], y[18], want[16];
	uint8_t * kp, * in, * out;
	size_t len, i;
	int inplace, live0, second;
	void * key;

	/* the requests: key, length, block, whether in place */
#if MODE == 2
	has = vf_fork(vf_bool());
	if (vf_fork(vf_bool()))
		hwbad = 0;
	else if (vf_fork(vf_bool()))
		hwbad = 1;
	else if (vf_fork(vf_bool()))
		hwbad = vf_fork(vf_bool()) ? 2 : 3;
	else
		hwbad = vf_fork(vf_bool()) ? 32 : 33;
	libbad = vf_fork(vf_bool()) ? 0 : vf_fork(vf_bool()) ? 1 : 16;
	expect_abort = libbad && !(has && !hwbad);
	if (vf_fork(vf_bool()))
		VASSERT(crypto_aes_can_use_intrinsics() == (has && !hwbad), "intrinsics are used where they work");
#elif MODE == 1
	has = HW;
	/* (the self-test comes first) */
	memset(k, 0, 32);
	if ((key = crypto_aes_key_expand(k, 16)) == NULL)
		return;
	crypto_aes_key_free(key);
	setfail = vf_fork(vf_bool());
#endif
	len = vf_fork(vf_bool()) ? 16 : 32;
#if MODE == 0
	/* other lengths are refused */
	if (vf_fork(vf_bool())) {
		len = vf_concrete(vf_u8() % 34);
		if (len != 0 && len != 1 && len != 15 && len != 17 && len != 24 && len != 31 && len != 33)
			VSTOP();
		vf_array(k, 32);
		live0 = nlive;
		VASSERT(crypto_aes_key_expand_aesni(k, len) == NULL, "a key of another length is refused");
		VASSERT(nlive == live0, "and nothing is left behind");
		VREACH("refused");
		return;
	}
#endif
	for (second = 0; second < 2; second++) {
		inplace = MODE == 2 ? second : vf_fork(vf_bool());
#if MODE == 2
		memset(k, 3, 32);
		for (i = 0; i < 16; i++)
			x[i] = (uint8_t)(i * 7 + len + (size_t)second);
#else
		vf_secret(k, 32);
		vf_array(x, 16);
#endif
		refaes(k, len, x, want);
		kp = exact(k, len);
		live0 = nlive;
#if MODE > 0
		request = 1;
		nset = nenc = 0;
		wantkey = k;
		wantbits = (int)len * 8;
#if MODE == 2
		request = second;
		hexp = henc = hfree = 0;
#endif
		mayfail = MODE == 1;
		key = crypto_aes_key_expand(kp, len);
#else
		mayfail = 1;
		key = crypto_aes_key_expand_aesni(kp, len);
#endif
		mayfail = 0;
#if MODE == 2
		VASSERT(!expect_abort, "the program stops when no implementation computes AES");
		VASSERT(second == 0 || (has && !hwbad ? hexp == 1 && nset == 0 : hexp == 0 && nset == 1), "the implementation that works is chosen");
		VASSERT(crypto_aes_can_use_intrinsics() == (has && !hwbad), "intrinsics are used where they work");
#endif
#if MODE == 1
		if (!HW && setfail) {
			VASSERT(key == NULL, "failure to expand the key is reported");
			VASSERT(nlive == live0, "and nothing is left behind");
			VREACH("set fails");
			return;
		}
#endif
		if (key == NULL) {
			/* no memory */
			VASSERT(nlive == live0, "nothing is left behind");
			VREACH("no memory");
			return;
		}
		/* the caller's copy of the key may go away */
		memset(kp, 0, len);
		free(kp);
		memset(y, 0x3c, sizeof(y));
		out = &y[1];
		if (inplace) {
			memcpy(out, x, 16);
			in = out;
		} else
			in = exact(x, 16);
#if MODE == 2
		nset = nenc = hexp = henc = hfree = 0;
#elif MODE == 1
		nenc = 0;
#endif
#if MODE == 0
		crypto_aes_encrypt_block_aesni(in, out, key);
#else
		crypto_aes_encrypt_block(in, out, key);
#endif
		for (i = 0; i < 16; i++)
			VASSERT(out[i] == want[i], "the block is encrypted as FIPS 197 says");
		VASSERT(y[0] == 0x3c && y[17] == 0x3c, "only the output is written");
		if (!inplace) {
			vf_assert_same(in, x, 16, "the input is only read");
			free(in);
		}
#if MODE == 1
		VASSERT(nenc == !HW, "one implementation for expansion and encryption");
#endif
		vf_watch_secrets(1);
#ifdef VF_NATIVE
		watching = 1;
#endif
#if MODE == 0
		crypto_aes_key_free_aesni(key);
		crypto_aes_key_free_aesni(NULL);
#else
		crypto_aes_key_free(key);
		crypto_aes_key_free(NULL);
#endif
		vf_watch_secrets(0);
#ifdef VF_NATIVE
		watching = 0;
#endif
		VASSERT(vf_is_freed(key), "the expanded key is released");
		VASSERT(nlive == live0, "all of it");
#if MODE == 2
		if (has && !hwbad)
			VASSERT(henc == 1 && hfree == 1 && nenc == 0, "the intrinsics are used for encryption and release");
		else
			VASSERT(henc == 0 && hfree == 0 && nenc == 1, "the library is used for encryption and release");
		/* The choice is made once. */
		if (second == 0 && vf_fork(vf_bool())) {
			has = !has;
			cpusupport_x86_aesni_present_1 = cpusupport_x86_aesni_init_1 = 0;
			VASSERT(crypto_aes_can_use_intrinsics() == (!has && !hwbad), "the choice is made once");
			VREACH("later");
			return;
		}
		if (has && !hwbad)
			VREACH("hardware");
		else
			VREACH("software");
#endif
#if MODE == 0
		VREACH("end");
		return;
#endif
	}
	VREACH("end2");
}

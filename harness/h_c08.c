/*
 * C08: the resource limits.  MODE 0: decryption; 1: encryption with explicit
 * parameters.  FORCE: -f.  ZERO: the time limit is zero.
 */
#include <string.h>
#include "w_enc.h"
#undef malloc
#undef free

#ifdef SOMEN
#define ISN(n) ((n) == 1 || (n) == 10 || (n) == 31 || (n) == 32 || (n) == 57 || (n) == 63)
#else
#define ISN(n) 1
#endif

void
vf_harness(void)
{
	static struct scryptenc_params P;
	static uint8_t h[130], o[132], t[32];
	uint64_t logN, N, m;
	uint32_t r, p;
	double need, lim;
	int rc, ok, big;
#if MODE == 0
	size_t olen;
#endif

	w_init();
	P.maxmem = vf_u64();
	P.maxmemfrac = 0.125;
	w_memlimit = vf_u64();
#ifdef ZERO
	P.maxtime = 0;
	w_opps = vf_posdouble(1e-3, 1e15);
#else
	P.maxtime = vf_posdouble(1e-6, 1e12);
	w_opps = vf_posdouble(1e-3, 1e15);
#endif
	logN = vf_u8();
	r = vf_u32();
	p = vf_u32();
	ok = vf_fork(logN >= 1 && logN <= 63) && vf_fork(r != 0) && vf_fork(p != 0) && vf_fork((uint64_t)r * p < 0x40000000);
	if (ok) {
		VASSUME(ISN(logN));
		logN = vf_concrete(logN);
	}
#if MODE == 0
	memcpy(h, "scrypt", 7);
	h[7] = (uint8_t)logN;
	h[8] = (uint8_t)(r >> 24); h[9] = (uint8_t)(r >> 16); h[10] = (uint8_t)(r >> 8); h[11] = (uint8_t)r;
	h[12] = (uint8_t)(p >> 24); h[13] = (uint8_t)(p >> 16); h[14] = (uint8_t)(p >> 8); h[15] = (uint8_t)p;
	vf_bytes(&h[16], 32);
	ref_sha256(h, 48, t);
	memcpy(&h[48], t, 16);
	rc = scryptdec_buf(h, 130, o, &olen, (const uint8_t *)"pw", 2, &P, 0, FORCE);
#else
	P.logN = (int)logN;
	P.r = r;
	P.p = p;
	VASSUME(logN != 0 && r != 0 && p != 0);	/* not given, otherwise */
	rc = scryptenc_buf(t, 4, o, h, 4, &P, 0, FORCE);
#endif
	if (!ok) {
		VASSERT(n_kdf == 0, "no key is derived with parameters that are not valid");
		VASSERT(rc == (MODE == 0 ? SCRYPT_EINVAL : SCRYPT_EPARAM), "parameters that are not valid are refused");
		VREACH("not valid");
		return;
	}
	if (FORCE) {
		VASSERT(n_kdf == 1 && rc == SCRYPT_EKEY, "the limits do not apply");
		VASSERT(n_warn == 0, "no warning");
		VREACH("forced");
		return;
	}
	VASSERT(n_mem >= 1 && mt_maxmem == P.maxmem && mt_frac == P.maxmemfrac, "the memory limit asked for");
	N = (uint64_t)1 << logN;
	m = w_memlimit >> logN;
	big = vf_fork(m < (uint64_t)128 * r);
#ifdef ZERO
	VASSERT(rc == (big ? SCRYPT_EBIGSLOW : SCRYPT_ETOOSLOW), "no time is too little");
	VREACH("too slow");
	return;
#endif
	need = 4.0 * (double)N * (double)r * (double)p;
	lim = w_opps * P.maxtime;
#if MODE == 0
	if (vf_fork(rc == SCRYPT_EKEY)) {
		VASSERT(n_kdf == 1, "within the limits");
		VASSERT(!big, "more memory than allowed is refused");
		VASSERT(!(need > lim * (1 + 1e-9)), "more CPU time than allowed is refused");
		VREACH("within the limits");
		return;
	}
	VASSERT(n_kdf == 0, "no key is derived when refused");
	if (vf_fork(rc == SCRYPT_ETOOBIG)) {
		VASSERT(big, "too big");
		VASSERT(!(need > lim * (1 + 1e-9)), "too big, and not too slow");
		VREACH("too big");
	} else if (vf_fork(rc == SCRYPT_ETOOSLOW)) {
		VASSERT(!big, "not too big");
		VASSERT(!(need < lim * (1 - 1e-9)), "too slow");
		VREACH("too slow");
	} else {
		VASSERT(rc == SCRYPT_EBIGSLOW, "a documented code");
		VASSERT(big, "too big and too slow");
		VASSERT(!(need < lim * (1 - 1e-9)), "too big and too slow");
		VREACH("too big and too slow");
	}
#else
	VASSERT(n_kdf == 1 && rc == SCRYPT_EKEY, "explicit parameters are used");
	if (vf_fork(n_warn == 0)) {
		VASSERT(!big, "no warning: enough memory");
		VASSERT(!(need > lim * (1 + 1e-9)), "no warning: enough time");
		VREACH("within the limits");
	} else {
		VASSERT(big || !(need < lim * (1 - 1e-9)), "a warning has a reason");
		VREACH("warned");
	}
#endif
}

/*
 * C09: parameters picked for encryption.
 */
#include <string.h>
#include "w_enc.h"
#undef malloc
#undef free


void
vf_harness(void)
{
	static struct scryptenc_params P;
	static uint8_t in[4], o[132], pw[4];
	uint64_t N, need;
	double ops, rp;
	int rc;

	w_init();
	P.maxmem = vf_u64();
	P.maxmemfrac = 0.125;
	P.maxtime = vf_lindouble(1e-6, 1e12);
	w_memlimit = vf_u64() >> 2;
	VASSUME(w_memlimit >= 1048576);
	w_opps = vf_lindouble(1e-3, 1e15);
	rc = scryptenc_buf(in, 4, o, pw, 4, &P, 0, FORCE);
	VASSERT(n_kdf == 1 && rc == SCRYPT_EKEY, "parameters are picked and used");
	VASSERT(mt_maxmem == P.maxmem && mt_frac == P.maxmemfrac, "the memory limit asked for");
	VASSERT(kdf[0].N == (uint64_t)1 << P.logN && kdf[0].r == P.r && kdf[0].p == P.p, "what is used is reported back");
	VASSERT(P.logN >= 1 && P.logN <= 63, "N is valid");
	VASSERT(P.r == 8, "r is 8");
	VASSERT(P.p >= 1 && P.p <= 0x3fffffff / 8, "p is valid");
	N = (uint64_t)1 << P.logN;
	VASSERT(N <= w_memlimit / 1024, "memory: 128 N r within the limit");
	ops = w_opps * P.maxtime;
	if (ops < 32768)
		ops = 32768;
	rp = ops / 4 / (double)N;	/* exact: N is a power of two */
	VASSERT((double)(8 * P.p) <= rp, "CPU: 4 N r p within the limit");
	need = N;
	(void)need;
	if (ops < (double)w_memlimit / 32) {
		VASSERT(P.p == 1, "CPU is the tighter limit: p is 1");
		VASSERT(16 > rp || P.logN == 63, "N is the largest the CPU limit allows");
		VREACH("CPU");
	} else {
		VASSERT(2 * N > w_memlimit / 1024 || P.logN == 63, "N is the largest the memory limit allows");
		VASSERT((double)(8 * ((uint64_t)P.p + 1)) > rp || 8 * ((uint64_t)P.p + 1) > 0x3fffffff, "p is the largest the CPU limit allows");
		VREACH("memory");
	}
}

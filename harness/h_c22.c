/* C22: crypto_verify_bytes is zero iff all bytes are equal. */
#include <stdlib.h>
#include "crypto_verify_bytes.h"
#include "vf.h"
#ifndef MAXLEN
#define MAXLEN 72
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
void
vf_harness(void)
{
	uint8_t va[MAXLEN], vb[MAXLEN];
	size_t len, i;
	uint8_t * a, * b;
	int eq, rc;

	for (i = 0; i < MAXLEN; i++) {
		va[i] = vf_u8();
		vb[i] = vf_u8();
	}
	for (len = MINLEN; len <= MAXLEN; len++) {
		/* Buffers of exactly len bytes: any access outside is an error. */
		a = malloc(len);
		b = malloc(len);
		VASSUME(a != NULL && b != NULL);
		eq = 1;
		for (i = 0; i < len; i++) {
			a[i] = va[i];
			b[i] = vb[i];
			eq &= (va[i] == vb[i]);
		}
		rc = crypto_verify_bytes(a, b, len);
		VASSERT((rc == 0) == eq, "zero iff equal");
		eq = 1;
		for (i = 0; i < len; i++)
			eq &= (a[i] == va[i]) & (b[i] == vb[i]);
		VASSERT(eq, "inputs unmodified");
		if (len == MAXLEN && rc)
			VREACH("full length, different");
		if (len == MAXLEN && !rc)
			VREACH("full length, equal");
		free(a);
		free(b);
	}
}

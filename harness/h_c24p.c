/* C24 (parsing): humansize_parse accepts exactly [0-9]+ ?[kMGTPE]?B? with a value below 2^64. */
#include <stdlib.h>
#include <string.h>
#include "humansize.h"
#include "vf.h"
/* LEN: the length of the string (all bytes symbolic). */
void
vf_harness(void)
{
	char s[LEN + 1], c[LEN + 1];
	uint64_t size = vf_u64();
	int rc, i = 0, ok = 1, pos, ndig = 0, over = 0;
	uint64_t v = 0, mult = 1, maxv = UINT64_MAX;
	int st = 0;	/* 0 digits, 1 after space, 2 after prefix, 3 after B */

	s[LEN] = c[LEN] = '\0';
	/* Reference: one left-to-right pass over the grammar. */
	for (pos = 0; pos < LEN; pos++) {
		/* Every byte but NUL; digits are spelled as 0x30 plus a nibble to keep the arithmetic linear. */
		uint8_t b = vf_u8();
		if (vf_fork((b >> 4) == 3 && (b & 15) <= 9))
			s[pos] = c[pos] = (char)('0' | (b & 15));
		else
			s[pos] = c[pos] = (char)b;
		VASSUME(c[pos] != '\0');
		if (st == 0 && c[pos] >= '0' && c[pos] <= '9') {
			unsigned d = (unsigned)(c[pos] - '0');
			ndig++;
			if (v > UINT64_MAX / 10 || v * 10 > UINT64_MAX - d)
				over = 1;
			v = v * 10 + d;
			if (over)
				break;
			continue;
		}
		if (st == 0 && c[pos] == ' ')
			st = 1;
		else if (st <= 1 && (c[pos] == 'k' || c[pos] == 'M' || c[pos] == 'G' || c[pos] == 'T' || c[pos] == 'P' || c[pos] == 'E')) {
			st = 2;
			switch (c[pos]) {
			case 'k': mult = 1000ULL; maxv = UINT64_MAX / 1000ULL; break;
			case 'M': mult = 1000000ULL; maxv = UINT64_MAX / 1000000ULL; break;
			case 'G': mult = 1000000000ULL; maxv = UINT64_MAX / 1000000000ULL; break;
			case 'T': mult = 1000000000000ULL; maxv = UINT64_MAX / 1000000000000ULL; break;
			case 'P': mult = 1000000000000000ULL; maxv = UINT64_MAX / 1000000000000000ULL; break;
			case 'E': mult = 1000000000000000000ULL; maxv = UINT64_MAX / 1000000000000000000ULL; break;
			}
		} else if (st <= 2 && c[pos] == 'B')
			st = 3;
		else
			ok = 0;
		if (ndig == 0)
			ok = 0;
		if (!ok)
			break;
	}
	for (i = pos + 1; i < LEN; i++) {
		s[i] = (char)vf_u8();
		VASSUME(s[i] != '\0');
	}
	if (LEN == 0 || ndig == 0 || over || v > maxv)
		ok = 0;
	rc = humansize_parse(s, &size);
	VASSERT(rc == (ok ? 0 : -1), "accepted iff well-formed and representable");
	if (ok)
		VASSERT(size == v * mult, "value parsed exactly");
#if LEN >= 4
	if (ok && mult != 1 && ndig == LEN - 3)
		VREACH("accepted with space, prefix and B");
#endif
#if LEN >= 1
	if (ok)
		VREACH("accepted");
#endif
	if (!ok)
		VREACH("refused");
}

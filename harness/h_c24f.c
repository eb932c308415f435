/* C24 (formatting): humansize prints the SI form, rounded down by less than one unit. */
#include <stdlib.h>
#include "humansize.h"
#include "vf.h"
#include "vf_asprintf.h"
extern int fmt_fail;
/* UNIT: the decimal exponent group (0: bytes, 1: kB, ..., 6: EB). */
static const uint64_t unit[7] = { 1ULL, 1000ULL, 1000000ULL, 1000000000ULL, 1000000000000ULL,
    1000000000000000ULL, 1000000000000000000ULL };
void
vf_harness(void)
{
	uint64_t size = vf_u64(), v, u = unit[UNIT];
	char * s;

	VASSUME(size >= (UNIT == 0 ? 0 : u));
#if UNIT < 6
	VASSUME(size < 1000 * u);
#endif
#ifdef SUB
#if SUB
	VASSUME(size >= 10 * u);
#else
	VASSUME(size < 10 * u);
#endif
#endif
	fmt_fail = vf_bool();
	s = humansize(size);
	if (fmt_fail) {
		VASSERT(s == NULL, "failed formatting is reported");
		VREACH("failure");
		return;
	}
	VASSERT(s != NULL && fmt_called == 1 && !fmt_bad, "formatted once");
	VASSERT(fmt_n >= 3 && fmt_tok[0].isnum, "starts with a number");
	VASSERT(!fmt_tok[fmt_n - 1].isnum && fmt_tok[fmt_n - 1].val == 'B', "ends with B");
	v = fmt_tok[0].val;
#if UNIT == 0
		VASSERT(fmt_n == 3 && !fmt_tok[1].isnum && fmt_tok[1].val == ' ' && v == size, "exact below 1000");
		VREACH("bytes");
#else
	if (!fmt_tok[1].isnum && fmt_tok[1].val == '.') {
		uint64_t d = fmt_tok[2].val;
		VASSERT(fmt_n == 6 && fmt_tok[2].isnum && fmt_tok[3].val == ' ' && !fmt_tok[3].isnum, "d.d form");
		VASSERT(fmt_tok[4].val == (uint64_t)" kMGTPE"[UNIT] && !fmt_tok[4].isnum, "prefix");
		VASSERT(v >= 1 && v <= 9 && d <= 9 && size < 10 * u, "one digit, point, one digit below ten units");
		/* (10v+d) * u/10 <= size < (10v+d+1) * u/10 */
		VASSERT((10 * v + d) * (u / 10) <= size && size - (10 * v + d) * (u / 10) < u / 10, "rounded down by less than one tenth unit");
#if !SUB
		VREACH("d.d");
#endif
	} else {
		VASSERT(fmt_n == 4 && fmt_tok[1].val == ' ' && !fmt_tok[1].isnum, "plain form");
		VASSERT(fmt_tok[2].val == (uint64_t)" kMGTPE"[UNIT] && !fmt_tok[2].isnum, "prefix");
		VASSERT(v >= 10 && v <= 999 && size >= 10 * u, "two or three digits from ten units");
		VASSERT(v * u <= size && size - v * u < u, "rounded down by less than one unit");
#if SUB
		VREACH("ddd");
#endif
	}
#endif
}

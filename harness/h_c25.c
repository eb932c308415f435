/*
 * C25: PARSENUM accepts exactly the numbers within bounds.
 * T: target type; KIND 0 unsigned, 1 signed, 2 floating point; BOUNDS 0 none,
 * 1 (min, max) of type intmax_t, 2 (min, max) of type uintmax_t;
 * BASE and TRAIL: base and trailing argument;
 * LEN: string length; SHAPE 0: any characters; 1: [blank][sign]digits;
 * 2: [sign]0x hex digits, with a final arbitrary character in both.
 */
#include <errno.h>
#include <inttypes.h>
#include <stdlib.h>
#include <string.h>
#include "parsenum.h"
#include "vf.h"

#ifndef TRAIL
#define TRAIL 0
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
static int
blank(int c)
{

	return (c == ' ' || (c >= 9 && c <= 13));
}
/* The value of c as a digit in any base, or 99. */
static unsigned
digit(int c)
{

	if (vf_fork((c >> 4) == 3 && (c & 15) <= 9))
		return ((unsigned)(c & 15));
	if (vf_fork((c & ~32) >= 'A' && (c & ~32) <= 'Z'))
		return ((unsigned)((c & ~32) - 'A' + 10));
	return (99);
}
/*
 * The subject sequence of strtoumax/strtoimax (C11 7.22.1.4): sign, magnitude
 * (or over), and its end; end == 0 if there is none.
 */
struct num { int neg, over; uintmax_t mag; size_t end; };
static struct num
subject(const char * s, int base)
{
	struct num n = {0, 0, 0, 0};
	size_t i = 0, first;

	while (vf_fork(blank(s[i])))
		i++;
	if (vf_fork(s[i] == '-')) {
		n.neg = 1;
		i++;
	} else if (vf_fork(s[i] == '+'))
		i++;
	if ((base == 0 || base == 16) && vf_fork(s[i] == '0') && vf_fork((s[i + 1] | 32) == 'x') && vf_fork(digit(s[i + 2]) < 16)) {
		i += 2;
		base = 16;
	} else if (base == 0)
		base = vf_fork(s[i] == '0') ? 8 : 10;
	for (first = i; ; i++) {
		unsigned d = digit(s[i]);

		if (!vf_fork(d < (unsigned)base))
			break;
		if (n.over)
			continue;
		if (vf_fork(n.mag > UINTMAX_MAX / (unsigned)base) ||
		    vf_fork(n.mag * (unsigned)base > UINTMAX_MAX - d))
			n.over = 1;
		else
			n.mag = n.mag * (unsigned)base + d;
	}
	n.end = i > first ? i : 0;
	return (n);
}
static struct { const char * s; int base; struct num n; } memo[4];
static int nmemo;
static struct num
lookup(const char * s, int base)
{

	for (int i = 0; i < nmemo; i++)
		if (memo[i].s == s && memo[i].base == base)
			return (memo[i].n);
	memo[nmemo].s = s;
	memo[nmemo].base = base;
	memo[nmemo].n = subject(s, base);
	return (memo[nmemo++].n);
}
#if defined(VF_IRX)
uintmax_t
strtoumax(const char * s, char ** e, int base)
{
	struct num n = lookup(s, base);

	if (e != NULL)
		*e = (char *)(uintptr_t)(s + n.end);
	if (n.end == 0)
		return (0);
	if (n.over) {
		errno = ERANGE;
		return (UINTMAX_MAX);
	}
	return (n.neg ? -n.mag : n.mag);
}
unsigned long strtoul(const char * s, char ** e, int base) { return (strtoumax(s, e, base)); }
unsigned long long strtoull(const char * s, char ** e, int base) { return (strtoumax(s, e, base)); }
intmax_t
strtoimax(const char * s, char ** e, int base)
{
	struct num n = lookup(s, base);

	if (e != NULL)
		*e = (char *)(uintptr_t)(s + n.end);
	if (n.end == 0)
		return (0);
	if (vf_fork(n.over || n.mag > (uintmax_t)INTMAX_MAX + (uintmax_t)n.neg)) {
		errno = ERANGE;
		return (n.neg ? INTMAX_MIN : INTMAX_MAX);
	}
	return ((intmax_t)(n.neg ? -n.mag : n.mag));
}
long strtol(const char * s, char ** e, int base) { return (strtoimax(s, e, base)); }
long long strtoll(const char * s, char ** e, int base) { return (strtoimax(s, e, base)); }
#endif
#if KIND == 2
/* strtod: any value, error or none, ending where a number of that text may end. */
static double fval;
static size_t fend;
static int frange;
double
vf_strtod(const char * s, char ** e)
{

	if (e != NULL)
		*e = (char *)(uintptr_t)(s + fend);
	if (frange)
		errno = ERANGE;
	return (fval);
}
#endif
void
vf_harness(void)
{
	char s[LEN + 1];
	T x = 0;
	int rc, i, e, valid, inrange;

	(void)i;
	s[LEN] = '\0';
	for (i = 0; i < LEN; i++) {
		uint8_t b = vf_u8();
		VASSUME(b != 0);
#if SHAPE == 1
		if (i > 2 && i < LEN - 1) {
			VASSUME((b >> 4) == 3 && (b & 15) <= 9);
			b = (uint8_t)('0' | (b & 15));
		}
#endif
#if SHAPE == 2
		if (i == LEN - 17)
			b = 'x';
		else if (i == LEN - 18)
			b = '0';
		else if (i > LEN - 17 && i < LEN - 1) {
			if (vf_fork((b >> 4) == 3 && (b & 15) <= 9))
				b = (uint8_t)('0' | (b & 15));
			else
				VSTOP();
		}
#endif
		s[i] = (char)b;
	}
#if BOUNDS == 1
	intmax_t min = (intmax_t)vf_u64(), max = (intmax_t)vf_u64();
#if KIND == 1
	/* bounds of a signed type are values of that type */
	VASSUME(min >= TMIN && max <= TMAX && min <= TMAX && max >= TMIN);
#endif
#elif BOUNDS == 2
	uintmax_t min = vf_u64(), max = vf_u64();
#elif BOUNDS == 3
	double min = vf_double(), max = vf_double();
	VASSUME(min == min && max == max);
#endif
	errno = 0;
#if KIND == 2
	fval = vf_double();
	frange = vf_fork(vf_bool());
	fend = (size_t)vf_concrete(vf_u64() % (LEN + 1));
	/* no number: zero is returned, and no range error */
	VASSUME(fend != 0 || (fval == 0.0 && !frange));
#endif
#if BOUNDS == 0
#if BASE == 0 && TRAIL == 0
	rc = PARSENUM(&x, s);
#else
	rc = PARSENUM_EX(&x, s, BASE, TRAIL);
#endif
#else
#if BASE == 0 && TRAIL == 0
	rc = PARSENUM(&x, s, min, max);
#else
	rc = PARSENUM_EX(&x, s, min, max, BASE, TRAIL);
#endif
#endif
	e = errno;
	VASSERT((rc != 0) == (e != 0), "failure and errno agree");
	VASSERT(e == 0 || e == EINVAL || e == ERANGE, "errno is EINVAL or ERANGE");
#if KIND == 2
	valid = fend != 0 && (TRAIL || s[fend] == '\0');
#if BOUNDS == 3
	inrange = fval >= min && fval <= max;
#else
	inrange = fval == fval;
#endif
	if (vf_fork(!valid)) {
		VASSERT(rc != 0 && e == EINVAL, "not a number: EINVAL");
		VREACH("not a number");
	} else if (vf_fork(!inrange || frange)) {
		VASSERT(rc != 0 && e == ERANGE, "out of range: ERANGE");
		VREACH("out of range");
	} else {
		VASSERT(rc == 0, "a number within bounds is accepted");
		VASSERT(x == (T)fval, "the value is stored");
		VREACH("accepted");
	}
#else
	struct num n = lookup(s, BASE);

	valid = n.end != 0 && (TRAIL || s[n.end] == '\0');
	/* within the bounds as a mathematical integer */
#if KIND == 0 && BOUNDS == 0
	inrange = !n.over && (!n.neg || n.mag == 0) && n.mag <= (T)-1;
#elif KIND == 0 && BOUNDS == 1
	inrange = !n.over && (!n.neg || n.mag == 0) && n.mag <= (T)-1 &&
	    (min <= 0 || n.mag >= (uintmax_t)min) && max >= 0 && n.mag <= (uintmax_t)max;
#elif KIND == 0 && BOUNDS == 2
	inrange = !n.over && (!n.neg || n.mag == 0) && n.mag <= (T)-1 && n.mag >= min && n.mag <= max;
#else
	inrange = !n.over && n.mag <= (uintmax_t)INTMAX_MAX + (uintmax_t)n.neg;
	inrange = inrange && (intmax_t)(n.neg ? -n.mag : n.mag) >= min && (intmax_t)(n.neg ? -n.mag : n.mag) <= max;
#endif
	if (vf_fork(!valid)) {
		VASSERT(rc != 0 && e == EINVAL, "not a number: EINVAL");
		VREACH("not a number");
	} else if (vf_fork(!inrange)) {
		VASSERT(rc != 0 && e == ERANGE, "out of range: ERANGE");
		VREACH("out of range");
	} else {
		VASSERT(rc == 0, "a number within bounds is accepted");
		VASSERT(x == (T)(n.neg ? -n.mag : n.mag), "the value is stored");
		VREACH("accepted");
	}
#endif
}

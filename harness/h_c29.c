/*
 * C29: clock reading and CPU speed estimation.
 * MODE 0: monoclock_get, 1: monoclock_get_cputime, 2: monoclock_getres,
 * 3: scryptenc_cpuperf.
 * Clocks return arbitrary (for MODE 3 non-decreasing) times or fail.
 */
#include "crypto_scrypt.h"
#include "monoclock.h"
#include "scryptenc.h"
#include "scryptenc_cpuperf.h"
#include "vf.h"

#ifndef MAXT
#define MAXT 6
#endif
static int notsup[3], hard[3];	/* by clock: monotonic, realtime, cputime */
static struct { int64_t s, us; uint64_t cores; int ticks; } t[MAXT];
#define DIFF(i, j) ((double)(t[j].s - t[i].s) + (double)(t[j].us - t[i].us) * 0.000001)
static int nt, kdf_failed, clock_failed, res_failed;
static uint64_t cores;
static int64_t S, NS, RS, RNS;
static int asked[3], used = -1;

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
static int
which(clockid_t c)
{

	if (c == CLOCK_MONOTONIC)
		return (0);
	if (c == CLOCK_REALTIME)
		return (1);
	VASSERT(c == CLOCK_PROCESS_CPUTIME_ID && MODE == 1, "a documented clock is read");
	return (2);
}
static int
ask(clockid_t c)
{
	int k = which(c);

	asked[k] = 1;
	if (vf_fork(notsup[k] != 0)) {
		errno = vf_fork(notsup[k] == 1) ? ENOSYS : EINVAL;
		return (-1);
	}
	if (vf_fork(vf_bool())) {
		hard[k] = 1;
		errno = EFAULT;
		return (-1);
	}
	used = k;
	S = (int64_t)vf_u64();
	NS = (int64_t)vf_u64();
	VASSUME(S >= 0 && S <= ((int64_t)1 << 40) && NS >= 0 && NS < 1000000000);
	return (0);
}
int
vf_clock_gettime(clockid_t c, struct timespec * ts)
{

	if (MODE == 3 && nt >= MAXT)
		VSTOP();
	if (ask(c)) {
		clock_failed = hard[which(c)] || which(c) == 1;
		return (-1);
	}
	if (MODE == 3) {
		/* the clock stands still or moves; microseconds are what the code keeps */
		int i, tick = nt > 0 && vf_fork(vf_bool());

		t[nt].s = S;
		t[nt].us = (int64_t)vf_u32();
		VASSUME(t[nt].us < 1000000);
		t[nt].cores = cores;
		t[nt].ticks = 0;
		if (nt > 0) {
			t[nt].ticks = t[nt - 1].ticks + tick;
			if (tick) {
				VASSUME(t[nt].s > t[nt - 1].s || (t[nt].s == t[nt - 1].s && t[nt].us > t[nt - 1].us));
			} else {
				t[nt].s = t[nt - 1].s;
				t[nt].us = t[nt - 1].us;
			}
		}
		for (i = 0; i < nt; i++)
			if (t[i].ticks < t[nt].ticks)
#ifndef EXACT
				VASSUME(DIFF(i, nt) > 0.0);
#else
				;
#endif
#ifdef EXACT
		/* concrete steps: the arithmetic is exact */
		t[nt].us = 0;
		t[nt].s = nt > 0 ? t[nt - 1].s + tick : 7;
#endif
		S = t[nt].s;
		NS = t[nt].us * 1000;
		nt++;
	}
	ts->tv_sec = S;
	ts->tv_nsec = NS;
	return (0);
}
int
vf_clock_getres(clockid_t c, struct timespec * ts)
{

	if (ask(c)) {
		res_failed = hard[which(c)] || which(c) == 1;
		return (-1);
	}
#ifdef EXACT
	S = vf_fork(vf_bool());
	NS = 500000000;
#endif
	RS = S;
	RNS = NS;
	if (MODE == 3)
		VASSUME(!(0.0 > (double)S + (double)NS * 0.000000001));
	ts->tv_sec = S;
	ts->tv_nsec = NS;
	return (0);
}
int
vf_gettimeofday(struct timeval * tv, void * tz)
{
	struct timespec ts;

	(void)tz;
	if (vf_clock_gettime(CLOCK_REALTIME, &ts))
		return (-1);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return (0);
}
int
crypto_scrypt(const uint8_t * pw, size_t pwlen, const uint8_t * salt, size_t saltlen,
    uint64_t N, uint32_t r, uint32_t p, uint8_t * buf, size_t buflen)
{

	(void)pw; (void)salt; (void)buf;
	VASSERT(pwlen == 0 && saltlen == 0 && buflen == 0, "no data is passed");
	if (vf_fork(vf_bool())) {
		kdf_failed = 1;
		errno = ENOMEM;
		return (-1);
	}
	/* 2N steps of a BlockMix of 2r cores each, p times */
	cores += 4 * N * r * p;
	return (0);
}
static int
same(double a, double b)
{

#ifdef VF_NATIVE
	double d = a > b ? a - b : b - a;

	return (a == b || d <= 1e-6 * (b > 0 ? b : -b));
#else
	return (vf_same(&a, &b, sizeof(a)) || a == b);
#endif
}
void
vf_harness(void)
{
	struct timeval tv = {0, 0};
	double d = 0.0, resd = 0.0;
	int rc, i, ok = 0;

	for (i = 0; i < 3; i++)
		notsup[i] = (int)vf_concrete((uint64_t)(vf_u8() % 3));
	errno = 0;
#if MODE == 0 || MODE == 1
	rc = MODE == 0 ? monoclock_get(&tv) : monoclock_get_cputime(&tv);
	if (rc == 0) {
		VASSERT(used >= 0, "a time is returned only if the system supplied one");
		VASSERT((int64_t)tv.tv_sec == S && (int64_t)tv.tv_usec == NS / 1000, "the time the clock supplied");
		VASSERT(!hard[0] && !hard[1] && !hard[2], "a clock failure is reported");
		VASSERT(MODE != 1 || asked[2], "the CPU time clock comes first");
		VASSERT(used == 2 || asked[0], "the monotonic clock comes first");
		VASSERT(used != 1 || notsup[0], "another clock is used only when the monotonic clock is not supported");
		VASSERT(used == 2 || MODE == 0 || notsup[2], "another clock is used only when the CPU time clock is not supported");
		VREACH("a time");
	} else {
		VASSERT(hard[0] || hard[1] || hard[2] || notsup[1], "fails only when the clocks fail");
		VREACH("clock failure");
	}
#elif MODE == 2
	rc = monoclock_getres(&d);
	if (rc == 0) {
		VASSERT(used >= 0 && !hard[0] && !hard[1], "a resolution is returned only if the system supplied one");
		VASSERT(used != 1 || notsup[0], "another clock is used only when the monotonic clock is not supported");
		resd = (double)S + (double)NS * 0.000000001;
		VASSERT(same(d, resd), "the resolution in seconds");
		VREACH("a resolution");
	} else {
		VASSERT(hard[0] || hard[1] || notsup[1], "fails only when the clocks fail");
		VREACH("clock failure");
	}
#else
	/* The resolution is read first. */
	VASSUME(notsup[2] == 0);
	rc = scryptenc_cpuperf(&d);
	VASSERT((rc == SCRYPT_ECLOCK) == (clock_failed || res_failed), "clock failures are reported as such");
	VASSERT((rc == SCRYPT_EKEY) == (kdf_failed != 0), "key derivation failures are reported as such");
	if (rc == SCRYPT_OK) {
		VASSERT(nt >= 2, "the clock was read");
		for (i = 1; i < nt - 1; i++) {
			/* measured from reading i, which came after a visible tick, to the last reading */
			if (t[i].ticks == 0 || t[nt - 1].ticks == t[i].ticks)
				continue;
			ok |= (DIFF(i, nt - 1) > (double)RS + (double)RNS * 0.000000001) && same(d, (double)(cores - t[i].cores) / DIFF(i, nt - 1));
		}
		VASSERT(ok, "speed = cores performed / time elapsed, measured from after a tick, for longer than the resolution");
		VASSERT(cores > 0, "something was measured");
		VREACH("a speed");
	} else {
		VASSERT(rc == SCRYPT_ECLOCK || rc == SCRYPT_EKEY, "documented error codes");
		VREACH("an error");
	}
#endif
	(void)tv; (void)resd; (void)ok;
}

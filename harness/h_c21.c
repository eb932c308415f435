/*
 * C21: the entropy reader fills the buffer completely, in order, or fails;
 * descriptors are closed exactly once.
 * The random device is an arbitrary byte string; reads return any number of
 * bytes, fail or hit the end; open, close and malloc may fail.
 */
#include <string.h>
#include "entropy.h"
#include "warnp.h"
#undef malloc
#undef free

#define FD 5
#ifndef MAXR
#define MAXR 5
#endif
static uint8_t * dev;
static uint64_t pos;
static int isopen, nopen, nclose, nreads, ninterrupted, fault, hard;
static int live;

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
void *
vf_malloc(size_t n)
{
	void * p;

	if (vf_fork(vf_bool())) {
		fault = hard = 1;
		return (NULL);
	}
	p = malloc(n);
	live++;
	return (p);
}
void
vf_free(void * p)
{

	if (p == NULL)
		return;
	live--;
	free(p);
}
int
vf_open(const char * path, int flags, ...)
{

	VASSERT(strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0, "the operating system's random device is opened");
	VASSERT((flags & O_ACCMODE) == O_RDONLY, "it is opened for reading");
	if (vf_fork(vf_bool())) {
		errno = vf_fork(vf_bool()) ? ENOENT : EMFILE;
		fault = hard = 1;
		return (-1);
	}
	VASSERT(!isopen, "one descriptor at a time");
	isopen = 1;
	nopen++;
	return (FD);
}
ssize_t
vf_read(int fd, void * p, size_t n)
{
	uint64_t k;

	VASSERT(fd == FD && isopen, "reads use the open descriptor");
	if (nreads++ >= MAXR)
		VSTOP();
	if (vf_fork(vf_bool())) {
		fault = 1;
		if (vf_fork(vf_bool())) {
			errno = EINTR;
		} else {
			errno = EIO;
			hard = 1;
		}
		return (-1);
	}
	if (vf_fork(n == 0))
		return (0);
	if (vf_fork(vf_bool())) {
		fault = hard = 1;
		return (0);
	}
	k = vf_u64();
	VASSUME(k >= 1 && k <= n);
	memcpy(p, dev + pos, k);
	pos += k;
	return ((ssize_t)k);
}
int
vf_close(int fd)
{

	VASSERT(fd == FD && isopen, "only the open descriptor is closed");
	if (vf_fork(vf_bool())) {
		fault = 1;
		if (vf_fork(vf_bool())) {
			/* Interrupted: the caller retries. */
			if (ninterrupted++ >= 2)
				VSTOP();
			errno = EINTR;
			return (-1);
		}
		errno = EIO;
		nclose++;
		isopen = 0;
		return (-1);
	}
	nclose++;
	isopen = 0;
	return (0);
}

void
vf_harness(void)
{
	uint64_t n = vf_u64(), m = 0;
	uint8_t * buf;
	int rc;

	VASSUME(n <= ((uint64_t)1 << 24));
#if MODE == 1
	m = vf_u64();
	VASSUME(m <= ((uint64_t)1 << 24));
#endif
	dev = malloc((uint64_t)1 << 26);
	vf_array(dev, (uint64_t)1 << 26);
	buf = malloc(n);
#if MODE == 0
	rc = entropy_read(buf, n);
#else
	{
		struct entropy_read_cookie * er = entropy_read_init();

		if (er == NULL) {
			VASSERT(fault, "opening fails only for a reason");
			VASSERT(nclose == nopen && live == 0, "nothing stays open after a failure");
			VREACH("init failed");
			return;
		}
		VASSERT(nopen == 1 && nclose == 0, "the handle is open");
		rc = entropy_read_fill(er, buf, n);
		if (rc == 0) {
			VASSERT(pos == n, "every byte came from the device, once");
			vf_assert_same(buf, dev, n, "bytes in order, without gaps");
			/* The second request gets the bytes that follow. */
			n = pos = 0;
			buf = malloc(m);
			vf_array(dev, (uint64_t)1 << 26);
			rc = entropy_read_fill(er, buf, m);
		}
		VASSERT(isopen, "the caller keeps the handle");
		if (entropy_read_done(er))
			VASSERT(fault, "closing fails only for a reason");
	}
#endif
	VASSERT(nopen == nclose, "every descriptor opened was closed once");
	VASSERT(live == 0, "allocations are released");
	if (rc == 0) {
		VASSERT(!hard, "a failure is reported");
		VASSERT(pos == n + m, "every byte came from the device, once");
		vf_assert_same(buf, dev, n + m, "bytes in order, without gaps");
		VREACH("success");
	} else {
		VASSERT(rc == -1, "failure is -1");
		VASSERT(fault, "failure only when something failed");
		VREACH("failure");
	}
}

/*
 * C10: memtouse returns max(1 MiB, min(maximum, fraction of the smallest
 * limit that applies)), or an error when a limit cannot be queried.
 */
#include "memlimit.h"
#include "vf.h"

static int failed;
static uint64_t rl_as, rl_rss, rl_data, ram, phys, frac_bits;
static uint64_t unit, page;
static int physerr;

int
vf_getrlimit(int what, struct rlimit * rl)
{

	if (vf_fork(vf_bool())) {
		failed = 1;
		errno = EINVAL;
		return (-1);
	}
	rl->rlim_max = RLIM_INFINITY;
	switch (what) {
	case RLIMIT_AS: rl->rlim_cur = rl_as; break;
	case RLIMIT_RSS: rl->rlim_cur = rl_rss; break;
	case RLIMIT_DATA: rl->rlim_cur = rl_data; break;
	default: rl->rlim_cur = vf_u64(); break;
	}
	return (0);
}
int
vf_sysinfo(struct sysinfo * si)
{

	if (vf_fork(vf_bool())) {
		failed = 1;
		errno = EFAULT;
		return (-1);
	}
	vf_array(si, sizeof(*si));
	si->totalram = ram;
	si->mem_unit = (unsigned int)unit;
	return (0);
}
long
vf_sysconf(int what)
{

	if (what == _SC_PAGE_SIZE)
		return ((long)page);
	if (what != _SC_PHYS_PAGES)
		return (vf_fork(vf_bool()) ? -1 : 1);
	if (physerr == 1) {
		errno = ENOSYS;
		failed = 1;
		return (-1);
	}
	if (physerr == 2) {
		errno = EINVAL;
		return (-1);
	}
	if (physerr == 3)
		return (-1);	/* no limit: errno unchanged */
	return ((long)phys);
}
void
vf_harness(void)
{
	size_t maxmem = vf_u64(), out = 0x5555;
	double frac = vf_double();
	uint64_t m, e;
	int rc;

	VASSUME(frac > 0.0 && frac <= FRACMAX);
	rl_as = vf_u64();
	rl_rss = vf_u64();
	rl_data = vf_u64();
	ram = vf_u64();
	unit = vf_fork(vf_bool()) ? 1 : 65536;
	page = 4096;
	phys = vf_u64();
	VASSUME(ram <= ((uint64_t)1 << 46) && phys <= ((uint64_t)1 << 46));
	physerr = (int)(vf_u8() & 3);
	physerr = (int)vf_concrete((uint64_t)physerr);
	errno = vf_fork(vf_bool()) ? 0 : EPERM;

	/* Order the limits first, so that each path has one smallest limit. */
	m = UINT64_MAX;
	if (vf_fork(rl_as < m))
		m = rl_as;
	if (vf_fork(rl_rss < m))
		m = rl_rss;
#ifdef NOMMAP
	if (vf_fork(rl_data < m))
		m = rl_data;
#endif
	if (vf_fork(ram * unit < m))
		m = ram * unit;
	if (physerr == 0 && vf_fork(phys * page < m))
		m = phys * page;
	(void)vf_fork(maxmem > 0);
	rc = memtouse(maxmem, frac, &out);
	VASSERT((rc != 0) == (failed != 0), "an error exactly when a limit could not be queried");
	if (rc != 0) {
		VREACH("query failed");
		return;
	}
	e = (uint64_t)(frac * (double)m);
	if (maxmem > 0 && e > maxmem)
		e = maxmem;
	if (e < 1048576)
		e = 1048576;
	VASSERT(out == e, "the documented allowance");
	VREACH("allowance");
}

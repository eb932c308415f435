"""C08-C10: resource limits."""
from .specs import Spec
from .cbmc import Job, H
from .irx_job import IJob


def c10(tier, seed, work):
    S = ["lib-platform/util/memlimit.c"]
    b = "all limits (physical memory up to 2^46 units/pages), all maxima, all fractions"
    def j(name, defs):
        return IJob(name, ["h_c10.c"], S, env="env_mem.h", cpusupport=False, posix=False, defs=defs + ["FRACMAX=1.0", "_GNU_SOURCE=1"], ub=False, fpabs=True, bounds=b)
    return [j("memtouse", []), j("memtouse_nommap", ["NOMMAP=1", 'CONFIG_H_FILE="%s/cfg/config-nommap.h"' % H])]


Spec("C10", c10, "all values of the system limits, the maximum and the fraction; memory units 1 and 65536; page size 4096; every query may fail",
     "other memory units and page sizes; the sysctl (BSD, macOS) queries, which are not compiled here",
     assumptions=["getrlimit, sysinfo and sysconf return arbitrary values or errors as POSIX says"],
     explanation="memlimit.c is executed symbolically with symbolic system limits; z3 decides the result against the documented formula, floating point in z3's IEEE theory.",
     technique="symbolic execution of the LLVM IR of memlimit.c with z3 (bit-vectors and IEEE floating point)",
     note="All limits and fractions; complete on this platform's configuration.")

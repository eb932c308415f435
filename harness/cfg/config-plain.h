#include "config.h"
#undef HAVE_MMAP
#undef HAVE_POSIX_MEMALIGN

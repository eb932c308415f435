#include "config.h"
#undef HAVE_MMAP

/* abort() and malloc() are the harness's. */
#include <stdlib.h>
void vf_abort(void) __attribute__((noreturn));
void * vf_oom(size_t);
#define abort() vf_abort()
#define malloc(n) vf_oom(n)
void vf_release(void *);
#define free(p) vf_release(p)

/* Messages are counted. */
#ifndef ENV_OPT_H_
#define ENV_OPT_H_
#include <stdio.h>
#include <stdlib.h>
extern int vf_msgs;
extern int vf_atexits;
int vf_atexit(void (*)(void));
#define fprintf(...) (vf_msgs++)
#define atexit(x) vf_atexit(x)
#endif

/* Included before every translation unit of the simple harnesses. */
#ifndef VF_ENV_H_
#define VF_ENV_H_
#endif

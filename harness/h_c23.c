/* C23: byte order and round trip of the encoders and decoders, at every alignment. */
#include <string.h>
#include "sysendian.h"
#include "vf.h"
#define N 24
static uint8_t buf[N], old[N];
static size_t off;
static void
fresh(void)
{
	int i;
	for (i = 0; i < N; i++)
		old[i] = buf[i] = vf_u8();
}
static void
check(uint64_t x, int w, int be)
{
	int i;
	for (i = 0; i < N; i++) {
		int k = i - (int)off;
		uint8_t want = old[i];
		if (k >= 0 && k < w)
			want = (uint8_t)(x >> (8 * (be ? w - 1 - k : k)));
		VASSERT(buf[i] == want, "encoded bytes, and no other byte written");
	}
}
static uint64_t
ref(int w, int be)
{
	uint64_t x = 0;
	int i;
	for (i = 0; i < w; i++)
		x = (x << 8) | buf[off + (size_t)(be ? i : w - 1 - i)];
	return (x);
}
#define T(NAME, TYPE, W, BE, RND) do {					\
	TYPE x = RND();							\
	fresh();							\
	VASSERT(NAME##dec(buf + off) == ref(W, BE), "decode " #NAME);	\
	NAME##enc(buf + off, x);					\
	check(x, W, BE);						\
	VASSERT(NAME##dec(buf + off) == x, "round trip " #NAME);	\
} while (0)
void
vf_harness(void)
{
	uint8_t o = vf_u8();
	VASSUME(o < 16);
	for (off = 0; off < 16; off++)
		if (off == o)
			break;
	T(be16, uint16_t, 2, 1, vf_u16);
	T(le16, uint16_t, 2, 0, vf_u16);
	T(be32, uint32_t, 4, 1, vf_u32);
	T(le32, uint32_t, 4, 0, vf_u32);
	T(be64, uint64_t, 8, 1, vf_u64);
	T(le64, uint64_t, 8, 0, vf_u64);
	VREACH("end");
}

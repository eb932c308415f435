/* FIPS 197's cipher; the S-box and multiplication by x are those of the vector instructions' model. */
#ifdef VF_NATIVE
static uint8_t
vf_xtime(uint8_t x)
{

	return ((uint8_t)((x << 1) ^ ((x & 0x80) ? 0x1b : 0)));
}
static uint8_t
gfmul(uint8_t a, uint8_t b)
{
	uint8_t r = 0;

	for (; b; b >>= 1, a = vf_xtime(a))
		if (b & 1)
			r ^= a;
	return (r);
}
static uint8_t
vf_sbox(uint8_t x)
{
	uint8_t inv = 0, r;
	int i;

	for (i = 1; i < 256 && x; i++)
		if (gfmul(x, (uint8_t)i) == 1)
			inv = (uint8_t)i;
	r = inv;
	for (i = 1; i < 5; i++)
		r ^= (uint8_t)((inv << i) | (inv >> (8 - i)));
	return (r ^ 0x63);
}
#else
uint8_t vf_sbox(uint8_t);
uint8_t vf_xtime(uint8_t);
#endif
static void
refaes(const uint8_t * key, size_t len, const uint8_t in[16], uint8_t out[16])
{
	uint8_t w[240], s[16], t[16], x[4], y, rcon = 1;
	size_t nk = len / 4, nr = nk + 6, i, j, r;

	memcpy(w, key, len);
	for (i = nk; i < 4 * (nr + 1); i++) {
		memcpy(x, &w[4 * i - 4], 4);
		if (i % nk == 0) {
			y = x[0];
			x[0] = vf_sbox(x[1]) ^ rcon;
			x[1] = vf_sbox(x[2]);
			x[2] = vf_sbox(x[3]);
			x[3] = vf_sbox(y);
			rcon = (uint8_t)((rcon << 1) ^ ((rcon & 0x80) ? 0x1b : 0));
		} else if (nk > 6 && i % nk == 4)
			for (j = 0; j < 4; j++)
				x[j] = vf_sbox(x[j]);
		for (j = 0; j < 4; j++)
			w[4 * i + j] = w[4 * (i - nk) + j] ^ x[j];
	}
	for (i = 0; i < 16; i++)
		s[i] = in[i] ^ w[i];
	for (r = 1; r <= nr; r++) {
		/* byte (row j, column i) is s[4 * i + j] */
		for (i = 0; i < 4; i++)
			for (j = 0; j < 4; j++)
				t[4 * i + j] = vf_sbox(s[4 * ((i + j) % 4) + j]);
		for (i = 0; i < 4; i++)
			for (j = 0; j < 4; j++)
				s[4 * i + j] = (r == nr ? t[4 * i + j] :
				    vf_xtime(t[4 * i + j]) ^ vf_xtime(t[4 * i + (j + 1) % 4]) ^ t[4 * i + (j + 1) % 4] ^ t[4 * i + (j + 2) % 4] ^ t[4 * i + (j + 3) % 4]) ^ w[16 * r + 4 * i + j];
	}
	memcpy(out, s, 16);
}

/* Replays the UTF-8 decoder automaton (spec/UTF8.tla) into the codec.
 * usage: utf8 TABLEFILE MODE ARG SHARD NSHARD SEED */
#include "h.h"
#include "u8model.h"
static struct guard g, go;
static unsigned char bb[] = { 0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 255 };
#define NB (sizeof bb)

/* s[0..n) stands right before the inaccessible page */
static void dec1(const unsigned char *s, size_t n)
{
	unsigned char *p = g.hi - n; cp_t e, c = 0x12345678; size_t r, w;
	memcpy(p, s, n);
	cur_txt = s; cur_len = n; cur_arg = n; calls += 2;
	w = u8_step(s, n, &e);
	r = grapheme_decode_utf8((char *)p, n, &c);
	if (r != w || c != e) fail("decode", "\"want\":%lu,\"wantcp\":%lu,\"got\":%lu,\"gotcp\":%lu", w, (long)e, r, (long)c);
	r = grapheme_decode_utf8((char *)p, n, NULL);
	if (r != w) fail("decode without output", "\"want\":%lu,\"got\":%lu", w, r);
	if (memcmp(p, s, n)) fail("source modified", "");
}
/* the same bytes as a NUL-terminated string */
static void decnul(const unsigned char *s, size_t n)
{
	unsigned char t[64], *p = g.hi - n - 1; cp_t e, c; size_t r, w;
	memcpy(t, s, n); t[n] = 0; memcpy(p, t, n + 1);
	cur_txt = s; cur_len = n; cur_arg = -1; calls++;
	w = u8_step(t, n + 1, &e);
	r = grapheme_decode_utf8((char *)p, SIZE_MAX, &c);
	if (r != w || c != e) fail("decode", "\"want\":%lu,\"wantcp\":%lu,\"got\":%lu,\"gotcp\":%lu", w, (long)e, r, (long)c);
}
static void dec_all(unsigned long shard, unsigned long ns)
{
	unsigned char s[8]; unsigned long x;
	cp_t c = 1; size_t r; cur_fn = "decode_utf8"; cur_what = "null";
	c = 7; r = grapheme_decode_utf8(NULL, 0, &c); if (r || c != 0xFFFD) fail("null", "\"got\":%lu", r);
	c = 7; r = grapheme_decode_utf8(NULL, 17, &c); if (r || c != 0xFFFD) fail("null", "\"got\":%lu", r);
	c = 7; r = grapheme_decode_utf8(NULL, SIZE_MAX, &c); if (r || c != 0xFFFD) fail("null", "\"got\":%lu", r);
	c = 7; r = grapheme_decode_utf8((char *)g.hi, 0, &c); if (r || c != 0xFFFD) fail("empty", "\"got\":%lu", r);
	r = grapheme_decode_utf8(NULL, 0, NULL) + grapheme_decode_utf8((char *)g.hi, 0, NULL); if (r) fail("null", "\"got\":%lu", r);
	cur_what = "all strings of 3 bytes";
	for (x = shard; x < 1u << 24; x += ns) {
		s[0] = x >> 16; s[1] = x >> 8; s[2] = x; cases++;
		dec1(s, 3);
		if (!s[2]) { dec1(s, 2); decnul(s, 2); if (!s[1]) dec1(s, 1), decnul(s, 1); }
		if (nfail > 20) return;
	}
	cur_what = "all pairs of bytes x boundary bytes x boundary bytes";
	for (x = shard; x < 1u << 16; x += ns) for (size_t i = 0; i < NB; i++) for (size_t j = 0; j < NB; j++) {
		s[0] = x >> 8; s[1] = x; s[2] = bb[i]; s[3] = bb[j]; cases++;
		dec1(s, 4);
		if (s[0] >= 0xC0 && (i + j) % 8 == 0) { decnul(s, 3); decnul(s, 4); s[4] = bb[rn(NB)]; s[5] = rnd(); dec1(s, 5); dec1(s, 6); }
		if (nfail > 20) return;
	}
	cur_what = "all 4-byte sequences with an F0-F4 lead";
	for (x = shard; x < 5u << 18; x += ns) {
		s[0] = 0xF0 | x >> 18; s[1] = 0x80 | (x >> 12 & 63); s[2] = 0x80 | (x >> 6 & 63); s[3] = 0x80 | (x & 63); cases++;
		s[4] = bb[x % NB];
		dec1(s, 4 + x % 2);
		if (nfail > 20) return;
	}
}
static void checkenc(cp_t v, size_t len, int null)
{
	unsigned char w[4], *p = go.hi - (len < 64 ? len : 64); size_t r, n = enc(v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) ? 0xFFFD : v, w);
	size_t room = len < 64 ? len : 64, i; cp_t c;
	for (i = 0; i < room; i++) p[i] = 0xA5;
	cur_txt = &v; cur_len = 1; cur_w = 4; cur_arg = len; calls++;
	if (null) { r = grapheme_encode_utf8(v, NULL, len); if (r != n) fail("encode NULL", "\"want\":%lu,\"got\":%lu", n, r); return; }
	r = grapheme_encode_utf8(v, (char *)p, len);
	if (r != n) { fail("encode", "\"want\":%lu,\"got\":%lu", n, r); return; }
	if (len >= n) {
		if (memcmp(p, w, n)) fail("encoded bytes", "\"got\":[%d,%d,%d,%d]", p[0], n > 1 ? p[1] : -1, n > 2 ? p[2] : -1, n > 3 ? p[3] : -1);
		i = n;
		if (u8_step(p, n, &c) != n || grapheme_decode_utf8((char *)p, n, &c) != n || c != (v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) ? 0xFFFD : v))
			fail("round trip", "\"gotcp\":%lu", (long)c);
	} else i = 0;
	for (; i < room; i++) if (p[i] != 0xA5) { fail("encode overrun", "\"pos\":%lu", i); break; }
}
static void enc_all(unsigned long shard, unsigned long ns)
{
	uint64_t v;
	cur_fn = "encode_utf8";
	cur_what = "every scalar value and surrogate, every buffer length";
	for (v = shard; v < 0x120000; v += ns) {
		cases++;
		for (int l = 0; l < 7; l++) checkenc(v, l, 0);
		checkenc(v, SIZE_MAX, 0); checkenc(v, 0, 1); checkenc(v, 4, 1); checkenc(v, SIZE_MAX, 1);
		if (nfail > 20) return;
	}
	cur_what = "every 32-bit value";
	for (v = shard + (0x110000 + ns - 1) / ns * ns; v < (uint64_t)1 << 32; v += ns) {
		cases++; if (v % 64) { unsigned char b[4] = { 1, 2, 3, 4 }; calls++;
			{
				if (grapheme_encode_utf8(v, (char *)b, v % 5) != 3 || (v % 5 >= 3 ? b[0] != 0xEF || b[1] != 0xBF || b[2] != 0xBD : b[0] != 1 || b[1] != 2 || b[2] != 3) || b[3] != 4) { cp_t x = v; cur_txt = &x; cur_len = 1; cur_w = 4; cur_arg = v % 5; fail("encode", ""); }
			}
		} else checkenc(v, (v >> 6) % 6, 0);
		if (nfail > 20) return;
	}
}
/* lengths around 2^31, 2^32, 2^33 */
static void huge(int what, unsigned long cnt)
{
	unsigned char s[16], *f, w[4]; cp_t e, c; size_t r, k, L, n;
	f = far_(1); if (!f) return;
	while (cnt--) {
		L = hugelen(rn(1000), 6); cases++; calls++;
		if (what == 'd') {
			cur_fn = "decode_utf8"; cur_what = "huge length";
			for (k = 0; k < 8; k++) s[k] = rn(3) ? bb[rn(NB)] : rnd();
			if (rn(2)) enc(rn(0x110000), s);
			memcpy(f, s, 8); cur_txt = s; cur_len = 8; cur_w = 1; cur_arg = L;
			n = u8_step(s, 8, &e); r = grapheme_decode_utf8((char *)f, L, &c);
			if (r != n || c != e) fail("decode", "\"want\":%lu,\"wantcp\":%lu,\"got\":%lu,\"gotcp\":%lu", n, (long)e, r, (long)c);
		} else {
			cp_t v = rn(2) ? rn(0x110000) : rn(0x900); if (v >= 0xD800 && v <= 0xDFFF) v = 0xFFFD;
			cur_fn = "encode_utf8"; cur_what = "huge length"; memset(f, 0xA5, 8); n = enc(v, w);
			cur_txt = &v; cur_len = 1; cur_w = 4; cur_arg = L;
			r = grapheme_encode_utf8(v, (char *)f, L);
			if (r != n || memcmp(f, w, n) || f[n] != 0xA5) fail("encode", "\"want\":%lu,\"got\":%lu", n, r);
		}
		if (nfail > 20) return;
	}
}
static size_t gen(unsigned char *s, size_t max)
{
	size_t n = 0, want = 1 + rn(max);
	while (n + 4 <= want || n == 0) {
		switch (rn(5)) {
		case 0: s[n++] = rnd(); break;
		case 1: s[n++] = bb[rn(NB)]; break;
		case 2: case 3: n += enc(rn(3) ? rn(0x110000) : rn(2) ? rn(0x900) : 0xFF00 + rn(0x200), s + n); break;
		case 4: { unsigned char t[4]; size_t k = enc(rn(0x110000), t); k = 1 + rn(k); memcpy(s + n, t, k); n += k; }
		}
	}
	return n;
}
/* whole string in one piece, then fed in pieces */
static void stream(const unsigned char *s, size_t n, uint64_t cuts)
{
	size_t o, r, w, have, k; cp_t c, e;
	cur_txt = s; cur_len = n; cases++;
	memcpy(g.hi - n, s, n);
	for (o = 0; o < n;) {
		w = u8_step(s + o, n - o, &e); cur_arg = o; calls++;
		r = grapheme_decode_utf8((char *)g.hi - n + o, n - o, &c);
		if (r != w || c != e) { fail("stream", "\"want\":%lu,\"wantcp\":%lu,\"got\":%lu,\"gotcp\":%lu", w, (long)e, r, (long)c); return; }
		if (r > n - o) break;
		o += r;
	}
	/* in pieces: bit i of cuts: a piece ends before byte i+1 */
	for (o = 0, have = 0; o < n;) {
		if (have == o) for (have++; have < n && !(cuts >> (have - 1) % 64 & 1); have++);
		w = u8_step(s + o, n - o, &e);
		memcpy(g.hi - (have - o), s + o, have - o); calls++; cur_arg = o;
		r = grapheme_decode_utf8((char *)g.hi - (have - o), have - o, &c);
		if (r == 0) { fail("no progress", ""); return; }
		if (r > have - o) {
			if (have == n) { if (r != w) fail("pieces", "\"want\":%lu,\"got\":%lu", w, r); return; }
			for (have++; have < n && !(cuts >> (have - 1) % 64 & 1); have++);
			continue;
		}
		if (r != w || c != e) { fail("pieces", "\"have\":%lu,\"want\":%lu,\"wantcp\":%lu,\"got\":%lu,\"gotcp\":%lu", have, w, (long)e, r, (long)c); return; }
		o += r;
	}
	(void)k;
}
int main(int argc, char **argv)
{
	if (argc < 7) return 9;
	unsigned long arg = strtoul(argv[3], 0, 10), shard = strtoul(argv[4], 0, 10), ns = strtoul(argv[5], 0, 10);
	FILE *f = fopen(argv[1], "r"); if (!f) return 9;
	h_init(strtoul(argv[6], 0, 10) * 1000 + shard);
	u8_load(f); fclose(f);
	g = g_new(8192); go = g_new(4096); cur_w = 1; cur_fn = "decode_utf8"; cur_what = argv[2];
	if (!strcmp(argv[2], "dec")) dec_all(shard, ns);
	else if (!strcmp(argv[2], "enc")) enc_all(shard, ns);
	else if (!strcmp(argv[2], "stream")) {
		unsigned char s[4200]; unsigned long x, y, t, k; unsigned len;
		/* all strings over the boundary bytes with every way of splitting them */
		for (len = 1; len <= 4; len++) {
			for (t = 1, k = 0; k < len; k++) t *= NB;
			for (x = shard; x < t; x += ns) {
				for (y = x, k = 0; k < len; k++, y /= NB) s[k] = bb[y % NB];
				for (y = 0; y < 1u << (len - 1); y++) stream(s, len, y);
				if (nfail > 20) done();
			}
		}
		while (arg--) { size_t n = gen(s, rn(20) ? 24 : 4000); stream(s, n, rn(4) ? rnd() & rnd() : rn(2) ? ~0ull : 0); if (nfail > 20) done(); }
	} else if (!strncmp(argv[2], "huge-", 5)) {
		huge(argv[2][5], arg);
	} else if (!strcmp(argv[2], "record")) {
		unsigned char s[64];
		while (arg--) {
			cases++;
			if (rn(4)) {
				size_t n = gen(s, 20), o, r; cp_t c; cur_txt = s; cur_len = n;
				printf("SAMPLE {\"b\":"); put_txt(s, n, 1); printf(",\"s\":[");
				for (o = 0; o < n; o += r) { r = grapheme_decode_utf8((char *)s + o, n - o, &c); calls++; printf("%s[%lu,%ld]", o ? "," : "", r, (long)(c > 0x7FFFFFFF ? 0x7FFFFFFF : c)); if (r > n - o || !r) break; }
				printf("]}\n");
			} else {
				static const cp_t ends[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu };
				cp_t v = rn(2) ? ends[rn(18)] : rn(2) ? rn(0x110000) : (cp_t)rnd(); size_t n;
				n = grapheme_encode_utf8(v, (char *)s, sizeof s); calls++;
				printf("SAMPLE {\"c\":%ld,\"n\":%lu,\"e\":", (long)(v > 0x7FFFFFFF ? -1 : (long)v), n); put_txt(s, n > 60 ? 60 : n, 1); printf("}\n");
			}
		}
	}
	done();
}

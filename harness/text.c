/* Replays texts into the case functions and compares the two encodings, the two
 * length modes and the memory behaviour of all text functions.  Expectations come
 * from tables emitted by TLC: Word.tla (bimachine), Case.tla (mappings, final
 * sigma), UTF8.tla (decoder).
 * usage: text TABLEFILE MODE ARG SHARD NSHARD SEED */
#include "h.h"
#include "u8model.h"
#define NCPS 0x110000
#define MAXN 80000
static struct { int nc, nl, nr, dflt; int *ln, *rn; uint8_t *bk, *cls; } W;   /* word bimachine */
static uint8_t sst[2][4];
static uint8_t *pr;                    /* cased | ci << 1 */
static uint8_t *kc; static int nk; static cp_t **mem; static size_t *nmem; /* case classes */
static struct mp { uint8_t n; cp_t c[3]; } *maps[3]; static uint32_t *midx; static int nmaps;

static void load(const char *p)
{
	FILE *f = fopen(p, "r"); long i, j, k, runs;
	if (!f) { perror(p); exit(9); }
	u8_load(f);
	W.nc = rdint(f); W.nl = rdint(f); W.nr = rdint(f); W.dflt = rdint(f);
	W.ln = calloc(W.nl * W.nc, sizeof(int)); W.rn = calloc(W.nr * W.nc, sizeof(int)); W.bk = calloc(W.nl * W.nr, 1); W.cls = malloc(NCPS);
	for (i = 0; i < W.nl * W.nc; i++) W.ln[i] = rdint(f);
	for (i = 0; i < W.nr * W.nc; i++) W.rn[i] = rdint(f);
	for (i = 0; i < W.nl * W.nr; i++) W.bk[i] = rdint(f);
	for (runs = rdint(f), i = 0; i < runs; i++) { long a = rdint(f), b = rdint(f); k = rdint(f); for (j = a; j <= b; j++) W.cls[j] = k; }
	for (i = 0; i < 2; i++) for (j = 0; j < 4; j++) sst[i][j] = rdint(f);
	pr = malloc(NCPS); kc = malloc(NCPS);
	for (runs = rdint(f), i = 0; i < runs; i++) { long a = rdint(f), b = rdint(f); k = rdint(f); for (j = a; j <= b; j++) pr[j] = k; }
	nk = rdint(f);
	for (runs = rdint(f), i = 0; i < runs; i++) { long a = rdint(f), b = rdint(f); k = rdint(f); for (j = a; j <= b; j++) kc[j] = k; }
	nmaps = rdint(f); midx = calloc(NCPS, sizeof *midx);
	for (k = 0; k < 3; k++) maps[k] = calloc(nmaps + 1, sizeof **maps);
	for (i = 1; i <= nmaps; i++) {
		midx[rdint(f)] = i;
		for (k = 0; k < 3; k++) { maps[k][i].n = rdint(f); for (j = 0; j < maps[k][i].n; j++) maps[k][i].c[j] = rdint(f); }
	}
	fclose(f);
	mem = calloc(nk, sizeof *mem); nmem = calloc(nk, sizeof *nmem);
	for (k = 0; k < 2; k++) for (i = 0; i < nk; i++) {
		size_t m = 0;
		for (j = 1; j < NCPS; j++) if (kc[j] == i && !(j >= 0xD800 && j <= 0xDFFF)) { if (k) mem[i][m] = j; m++; }
		if (!k) mem[i] = malloc((m + 1) * sizeof(cp_t)), nmem[i] = m;
	}
}
static cp_t pick(int c) { return nmem[c] ? rn(6) == 0 ? mem[c][rn(nmem[c] < 4 ? nmem[c] : 4)] : mem[c][rn(nmem[c])] : 1; }

/* ------------------------------------------------------------ model of Case.tla */
static uint8_t prp(cp_t c) { return c < NCPS ? pr[c] : 0; }
static size_t put(int k, cp_t c, cp_t *o)
{
	if (c < NCPS && midx[c]) { struct mp *m = &maps[k][midx[c]]; for (int i = 0; i < m->n; i++) o[i] = m->c[i]; return m->n; }
	o[0] = c; return 1;
}
static size_t lower(const cp_t *t, size_t n, int l, cp_t *o, uint32_t *src, uint32_t base)
{
	static uint8_t r[MAXN + 1]; size_t i, m = 0, k;
	for (r[n] = 0, i = n; i-- > 0;) r[i] = sst[r[i + 1]][prp(t[i])];
	for (i = 0; i < n; i++) {
		if (t[i] == 0x3A3 && l && !r[i + 1]) o[m] = 0x3C2, k = 1; else k = put(1, t[i], o + m);
		while (k--) src[m++] = base + i;
		l = sst[l][prp(t[i])];
	}
	return m;
}
static uint8_t wcls(cp_t c) { return c < NCPS ? W.cls[c] : W.dflt; }
/* k: 0 upper, 1 lower, 2 title; src: index of the source character of every output codepoint */
static size_t conv(int k, const cp_t *t, size_t n, cp_t *o, uint32_t *src)
{
	static int rs_[MAXN + 1]; size_t i, j, m = 0, q;
	if (k == 0) { for (i = 0; i < n; i++) for (q = put(0, t[i], o + m); q--;) src[m++] = i; return m; }
	if (k == 1) return lower(t, n, 0, o, src, 0);
	for (rs_[n] = 0, i = n; i-- > 0;) rs_[i] = W.rn[rs_[i + 1] * W.nc + wcls(t[i])];
	for (i = 0; i < n; i = j) {
		int l = 0;
		for (j = i;;) { l = W.ln[l * W.nc + wcls(t[j])]; j++; if (j >= n || W.bk[l * W.nr + rs_[j]]) break; }
		for (; i < j && !(prp(t[i]) & 1); i++) o[m] = t[i], src[m++] = i;
		if (i < j) {
			for (q = put(2, t[i], o + m); q--;) src[m++] = i;
			i++; m += lower(t + i, j - i, 1, o + m, src + m, i);
		}
	}
	return m;
}
/* number of leading codepoints that stay as they are */
static size_t matching(int k, const cp_t *t, size_t n)
{
	static cp_t o[MAXN * 3]; static uint32_t src[MAXN * 3]; size_t m = conv(k, t, n, o, src), i;
	for (i = 0; i < n && i < m && o[i] == t[i] && src[i] == i && (i + 1 >= m || src[i + 1] != i); i++);
	return i;
}
/* ------------------------------------------------------------ functions under test */
static size_t (*const tocp[3])(const cp_t *, size_t, cp_t *, size_t) = { grapheme_to_uppercase, grapheme_to_lowercase, grapheme_to_titlecase };
static size_t (*const tou8[3])(const char *, size_t, char *, size_t) = { grapheme_to_uppercase_utf8, grapheme_to_lowercase_utf8, grapheme_to_titlecase_utf8 };
static bool (*const iscp[3])(const cp_t *, size_t, size_t *) = { grapheme_is_uppercase, grapheme_is_lowercase, grapheme_is_titlecase };
static bool (*const isu8[3])(const char *, size_t, size_t *) = { grapheme_is_uppercase_utf8, grapheme_is_lowercase_utf8, grapheme_is_titlecase_utf8 };
static size_t (*const nbcp[4])(const cp_t *, size_t) = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break };
static size_t (*const nbu8[4])(const char *, size_t) = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8 };
#define N3(x) { x "uppercase", x "lowercase", x "titlecase" }
#define N3u(x) { x "uppercase_utf8", x "lowercase_utf8", x "titlecase_utf8" }
static const char *ntocp[] = N3("to_"), *ntou8[] = N3u("to_"), *niscp[] = N3("is_"), *nisu8[] = N3u("is_");
static const char *nnbcp[] = { "next_character_break", "next_word_break", "next_sentence_break", "next_line_break" };
static const char *nnbu8[] = { "next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8" };

static cp_t *T, *E, *O; static uint32_t *S; static unsigned char *B, *OB, *EB; static size_t n;
static struct guard gs, gd;            /* guarded source and destination */
static size_t toutf8(const cp_t *t, size_t m, unsigned char *o) { size_t l = 0; for (size_t i = 0; i < m; i++) l += enc(t[i], o + l); return l; }
static void cur(const char *fn, const void *t, size_t m, int w, long arg) { cur_fn = fn; cur_txt = t; cur_len = m; cur_w = w; cur_arg = arg; calls++; }
static void ctext(size_t m) { n = m; }
static int scalar(cp_t c) { return c < NCPS && !(c >= 0xD800 && c <= 0xDFFF); }
static int allscalar(void) { for (size_t i = 0; i < n; i++) if (!scalar(T[i])) return 0; return 1; }

/* the text as an argument: at the end of accessible memory, with an explicit length or
 * (when it contains no NUL) NUL-terminated */
static const void *arg_; static size_t argl;
/* when B holds a byte string that is not (only) the encoding of T: its length, the offsets of the
 * codepoints; a sequence cut off at its end is in B, but not in T */
static size_t raw; static uint32_t *roff;
static size_t source(void) { return raw ? raw : toutf8(T, n, B); }
static void argument(const void *t, size_t m, size_t w)
{
	bool nul = !rn(3) && !(raw && roff[n] < raw);
	for (size_t i = 0; nul && i < m; i++) nul = w == 1 ? ((const char *)t)[i] != 0 : ((const cp_t *)t)[i] != 0;
	unsigned char *p = gs.hi - (m + nul) * w;
	memcpy(p, t, m * w); if (nul) memset(p + m * w, 0, w);
	arg_ = p; argl = nul ? SIZE_MAX : m; cur_arg = nul ? -2 : -1;
}
/* conversion of T[0..n) against the model; k: which; u: utf8 */
static void convert(int k, int u)
{
	size_t m = conv(k, T, n, E, S), g, bl, i;
	if (!u) {
		cur(ntocp[k], T, n, 4, -1);
		for (i = 0; i < m + 3; i++) O[i] = 0xA5A5A5A5;
		argument(T, n, 4); g = tocp[k](arg_, argl, O, m + 2);
		if (g != m) { fail("length", "\"want\":%lu,\"got\":%lu", m, g); return; }
		for (i = 0; i < m; i++) if (O[i] != E[i]) { fail("conversion", "\"pos\":%lu,\"want\":%lu,\"got\":%lu", i, (long)E[i], (long)O[i]); return; }
		if (O[m] || O[m + 2] != 0xA5A5A5A5) { fail("termination", ""); return; }
	} else {
		size_t el = toutf8(E, m, EB);
		bl = source();
		if (raw) cur(ntou8[k], B, bl, 1, -1); else cur(ntou8[k], T, n, 4, -1);
		memset(OB, 0xA5, el + 4);
		argument(B, bl, 1); g = tou8[k](arg_, argl, (char *)OB, el + 2);
		if (g != el) { fail("length", "\"want\":%lu,\"got\":%lu", el, g); return; }
		for (i = 0; i < el; i++) if (OB[i] != EB[i]) { fail("conversion", "\"pos\":%lu,\"want\":%d,\"got\":%d", i, EB[i], OB[i]); return; }
		if (OB[el] || OB[el + 2] != 0xA5) { fail("termination", ""); return; }
	}
}
/* C17: relation between detection and conversion as the library performs them */
static void detect(int k, int u)
{
	size_t g, i, e, m; bool r;
	if (!u) {
		cur(niscp[k], T, n, 4, -1);
		argument(T, n, 4); g = tocp[k](arg_, argl, O, 4 * n + 4);
		if (g > 4 * n) { fail("length", "\"got\":%lu", g); return; }
		bool same = g == n && !memcmp(O, T, n * sizeof *T);
		argument(T, n, 4); e = ~0ul; r = iscp[k](arg_, argl, &e);
		if (r != same) { fail("detection", "\"want\":%d,\"got\":%d", same, r); return; }
		if (iscp[k](arg_, argl, NULL) != r) { fail("detection without output", ""); return; }
		/* the longest leading part that stays: position by position, by the model's alignment */
		m = matching(k, T, n);
		if (e != m) { fail("matching length", "\"want\":%lu,\"got\":%lu", m, e); return; }
		if (k < 2) {      /* the outcome is in that case and stays */
			e = ~0ul; calls += 2;
			if (!iscp[k](O, g, &e) || e != g) { fail("outcome not in the case", "\"len\":%lu", g); return; }
			i = tocp[k](O, g, E, 4 * g + 4);
			if (i != g || memcmp(O, E, g * sizeof *O)) { fail("outcome not stable", ""); return; }
		}
	} else {
		size_t bl = source();
		if (raw) cur(nisu8[k], B, bl, 1, -1); else cur(nisu8[k], T, n, 4, -1);
		argument(B, bl, 1); g = tou8[k](arg_, argl, (char *)OB, 12 * n + 4);
		if (g > 12 * n) { fail("length", "\"got\":%lu", g); return; }
		bool same = raw ? g == toutf8(T, n, EB) && !memcmp(OB, EB, g) : g == bl && !memcmp(OB, B, bl);
		argument(B, bl, 1); e = ~0ul; r = isu8[k](arg_, argl, &e);
		if (r != same) { fail("detection", "\"want\":%d,\"got\":%d", same, r); return; }
		m = matching(k, T, n); m = raw ? roff[m] : toutf8(T, m, EB);
		if (e != m) { fail("matching length", "\"want\":%lu,\"got\":%lu", m, e); return; }
		if (k < 2) {
			e = ~0ul; calls += 2;
			if (!isu8[k]((char *)OB, g, &e) || e != g) { fail("outcome not in the case", "\"len\":%lu", g); return; }
			i = tou8[k]((char *)OB, g, (char *)EB, 12 * n + 4);
			if (i != g || memcmp(OB, EB, g)) { fail("outcome not stable", ""); return; }
		}
	}
}
/* C18: all destination lengths, against the library's own full result */
static void buffers(int k, int u)
{
	size_t full, dl, i, g, fit, w = u ? 1 : 4, bl = u ? source() : 0;
	unsigned char *p; if (raw) cur(ntou8[k], B, bl, 1, -1); else cur(u ? ntou8[k] : ntocp[k], T, n, 4, -1);
	argument(u ? (void *)B : (void *)T, u ? bl : n, w); const void *src = arg_; size_t sl = argl;
#define CALL(d, l) (u ? tou8[k](src, sl, (char *)(d), l) : tocp[k](src, sl, (cp_t *)(d), l))
	full = CALL(u ? (void *)OB : (void *)O, 12 * n + 20);
	if (full > 12 * n) { fail("length", "\"got\":%lu", full); return; }
	size_t extra = 3 + rn(4);
	if (CALL(NULL, 0) != full || CALL(NULL, SIZE_MAX) != full || CALL(NULL, full / 2) != full) { fail("length without destination", "\"want\":%lu", full); return; }
	for (dl = 0; dl <= full + extra; dl++) {
		if (full > 60 && dl > 8 && dl + 12 < full && rn(full / 16)) continue;
		cur_arg = dl; calls++;
		p = gd.hi - dl * w;
		for (i = 0; i < dl * w; i++) p[i] = 0x5A;
		p[-1] = 0x77;
		g = CALL(p, dl);
		if (g != full) { fail("length", "\"want\":%lu,\"got\":%lu", full, g); return; }
		if (p[-1] != 0x77) { fail("underrun", ""); return; }
		if (dl == 0) continue;
		fit = full < dl - 1 ? full : dl - 1;
		if (u) while (fit > 0 && fit < full && (OB[fit] & 0xC0) == 0x80) fit--;
		if (u ? p[fit] != 0 : ((cp_t *)p)[fit] != 0) { fail("no NUL after the prefix", "\"prefix\":%lu", fit); return; }
		if (memcmp(p, u ? (void *)OB : (void *)O, fit * w)) { fail("prefix", "\"prefix\":%lu", fit); return; }
	}
#undef CALL
}
/* ------------------------------------------------------------ texts */
static void (*one)(int, int);
static void randtext(size_t max)
{
	int sub[8], ns = 1 + rn(7), i; size_t len = 1 + rn(max), rep;
	static const cp_t fav[] = { 0x3A3, 0x3A3, 0x3C3, 0x3C2, 0x27, 0x2E, 0x2019, 0xAD, 0x345, 0x301, 0x20, 'a', 'Z', 0xDF, 0x130, 0x149, 0x1C5, 0x1F88, 0xFB03, 0x2B0, 0x5D0, '1', '_', 0x3A, 0x10400, 0x1E900, 0x10A0, 0x13A0, 0xAB70, 0xFF21 };
	for (i = 0; i < ns; i++) sub[i] = rn(nk);
	bool odd = rn(12) == 0, w = rn(3) == 0, as = !w && rn(8) == 0;
	if (w) window();
	for (n = 0; n < len;) {
		cp_t c = w ? inwindow() : as && rn(12) ? 1 + rn(127) : rn(3) ? fav[rn(sizeof fav / sizeof *fav)] : pick(rn(4) ? sub[rn(ns)] : (int)rn(nk));
		if (odd && rn(4) == 0) c = rn(2) ? 0 : rn(3) == 0 ? 0xD800 + rn(0x800) : rn(2) ? NCPS + rn(0x800) : (cp_t)rnd() | 0x80000000u;
		for (rep = rn(12) ? 1 : 1 + rn(6); rep-- && n < len;) T[n++] = c;
	}
}
static void all(void) { cases++; for (int k = 0; k < 3; k++) { one(k, 0); if (allscalar()) one(k, 1); } }
static void exhaust(int len, unsigned long shard, unsigned long ns, int both)
{
	unsigned long t, x, y; int l, i;
	for (l = 1; l <= len; l++) {
		for (t = 1, i = 0; i < l; i++) t *= nk;
		for (x = shard; x < t; x += ns) {
			for (y = x, i = 0; i < l; i++, y /= nk) T[i] = pick(y % nk);
			n = l; 
			if (both) all(); else { cases++; for (i = 0; i < 3; i++) one(i, (x / ns + i) % 2); }
			if (nfail > 20) done();
		}
	}
}
/* sigma contexts: every left context word x sigma x every right context word over the four
 * combinations of cased and case-ignorable (with long runs) */
static void sigmatext(size_t len)
{
	static cp_t *by[4]; static size_t nb[4]; cp_t c; int i, q; size_t rep;
	if (!by[0]) for (q = 0; q < 2; q++) for (i = 0; i < 4; i++) {
		size_t m = 0;
		for (c = 1; c < NCPS; c++) if (pr[c] == i && scalar(c)) { if (q) by[i][m] = c; m++; }
		if (!q) by[i] = malloc((m + 1) * sizeof(cp_t)), nb[i] = m;
	}
	for (n = 0; n < len;) {
		static const int bias[] = { 0, 1, 1, 2, 2, 2, 3, 3 };
		int b = bias[rn(8)];
		c = rn(4) == 0 ? 0x3A3 : by[b][rn(nb[b])];
		for (rep = rn(9) ? 1 : 1 + rn(40); rep-- && n < len;) T[n++] = c;
	}
}
/* a few characters, a short piece repeated many times, a few more characters */
static const size_t reps[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096,
                               16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000 };
static void pumptext(size_t cap)
{
	static cp_t a[64], m[8], z[64]; size_t al, ml, zl, k, i, r;
	int style = rn(3);
	if (style) sigmatext(1 + rn(4)); else randtext(4); al = n; memcpy(a, T, n * sizeof *a);
	if (style) sigmatext(1 + rn(2)); else randtext(rn(3) ? 1 : 4); ml = n; memcpy(m, T, n * sizeof *m);
	if (style) sigmatext(1 + rn(4)); else randtext(4); zl = n; memcpy(z, T, n * sizeof *z);
	for (k = 0; k < sizeof reps / sizeof *reps && al + zl + reps[k] < cap; k++);
	r = rn(k); if (rn(3)) r = rn(k < 26 ? k : 26);
	r = reps[r];
	if (rn(2)) r = (r + ml - 1) / ml;                  /* the length or the number of repetitions */
	for (n = 0, i = 0; i < al; i++) T[n++] = a[i];
	for (i = 0; i < r && n + ml + zl < cap; i++) { memcpy(T + n, m, ml * sizeof *m); n += ml; }
	for (i = 0; i < zl; i++) T[n++] = z[i];
	if (rn(8) == 0) { T[rn(n)] = 0x3A3; }
}
static void sigmas(unsigned long cnt)
{
	while (cnt--) {
		sigmatext(1 + rn(rn(8) ? 10 : 300));
		all();
		if (nfail > 20) done();
	}
}
static void sweep(unsigned long shard, unsigned long ns)
{
	uint64_t c; static const cp_t big[] = { 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x110041, 0x200041, 0x80000041u };
	for (c = shard; c < NCPS + sizeof big / sizeof *big; c += ns) {
		T[0] = c < NCPS ? c : big[c - NCPS]; n = 1;
		all();
		if (nfail > 20) done();
	}
	for (c = 0; c < 20000; c++) { T[0] = NCPS + (cp_t)rn(0xFFFFFFFFu - NCPS); n = 1; all(); if (nfail > 20) done(); }
}
/* every codepoint within a few others, cnt times */
static void embedded(unsigned long cnt, unsigned long shard, unsigned long ns)
{
	static cp_t a[8]; cp_t c; size_t l, m; int k;
	while (cnt--) for (c = 1 + shard; c < NCPS; c += ns) {
		if (!scalar(c)) continue;
		if (rn(3)) sigmatext(4); else randtext(4);
		l = rn(n + 1); memcpy(a, T, l * sizeof *a);
		if (rn(2)) sigmatext(4); else randtext(4);
		m = rn(n + 1); memmove(T + l + 1, T, m * sizeof *T); memcpy(T, a, l * sizeof *T); T[l] = c; n = l + 1 + m;
		cases++;
		if (one == buffers) one(rn(3), rn(2) && allscalar());
		else for (k = 0; k < 3; k++) one(k, (c / ns + k) % 2 && allscalar());
		if (nfail > 20) done();
	}
}
/* all texts of three ASCII characters, some of them with something behind */
static void ascii(unsigned long shard, unsigned long ns)
{
	unsigned long x; int k; 
	for (x = shard; x < 128ul * 128 * 128; x += ns) {
		n = 0;
		if (rn(4) == 0) { sigmatext(3); n = rn(n + 1); memmove(T + 3, T, n * sizeof *T); }
		T[0] = x % 128; T[1] = x / 128 % 128; T[2] = x / 128 / 128; n += 3;
		cases++;
		if (one == buffers) one(rn(3), rn(2)); else for (k = 0; k < 3; k++) one(k, (x / ns + k) % 2);
		if (nfail > 20) done();
	}
}
/* ------------------------------------------------------------ bytes */
static const unsigned char bb[] = { 0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 255 };
static size_t bytes(unsigned char *s, size_t max, int nonul)
{
	size_t l = 0, want = 1 + rn(max), k; int style = rn(4);
	while (l + 4 <= want || l == 0) {
		size_t o = l;
		switch (rn(style ? 6 : 3)) {
		case 0: case 1: case 2: randtext(3); l += toutf8(T, n, s + l); break;
		case 3: s[l++] = bb[rn(sizeof bb)]; break;
		case 4: { unsigned char t[4]; k = enc(rn(2) ? rn(NCPS) : pick(rn(nk)), t); k = 1 + rn(k); memcpy(s + l, t, k); l += k; break; }
		case 5: s[l++] = rn(3) ? ' ' : rnd(); break;
		}
		if (nonul) for (; o < l; o++) if (!s[o]) s[o] = 1;
	}
	return l;
}
/* decoded text of B[0..bl): T, n, offsets S */
static void decode(const unsigned char *b, size_t bl)
{
	size_t o = 0, r; cp_t c;
	for (n = 0; o < bl; o += r) {
		r = u8_step(b + o, bl - o, &c);
		if (r > bl - o) break;
		S[n] = o; T[n++] = c;
	}
	S[n] = o;
}
/* arbitrary byte strings, and texts with a sequence cut off at the end, for the UTF-8 functions */
static void bytetexts(unsigned long cnt)
{
	size_t l; int k;
	while (cnt--) {
		l = bytes(B, rn(30) ? 24 : 1200, 0);
		if (rn(2)) { unsigned char t[4]; size_t q = enc(rn(3) ? pick(rn(nk)) : 0x800 + rn(NCPS - 0x800), t); memcpy(B + l, t, q); l += 1 + rn(q); }
		decode(B, l); memcpy(roff, S, (n + 1) * sizeof *S); raw = l; cases++;
		for (k = 0; k < 3; k++) one(k, 1);
		raw = 0;
		if (nfail > 20) return;
	}
}
/* C10: bytes against decoded text, both as the library treats them */
static void encodings(const unsigned char *b, size_t bl)
{
	static uint32_t off[MAXN]; size_t i, g, h, j; int k; bool r, q; size_t e, f;
	cases++;
	decode(b, bl); memcpy(off, S, (n + 1) * sizeof *S);
	for (k = 0; k < 4; k++) {
		size_t steps = 0;
		for (i = 0; i < n;) {
			if (n > 3000 && ++steps > 50) { if (i + 30 >= n) break; i = n - 30; steps = 0; }
			g = nbcp[k](T + i, n - i); if (g == 0 || g > n - i) break;     /* other properties */
			cur(nnbu8[k], b, bl, 1, off[i]);
			h = nbu8[k]((char *)b + off[i], bl - off[i]);
			if (h != off[i + g] - off[i]) { fail("segment", "\"want\":%lu,\"got\":%lu", (long)(off[i + g] - off[i]), h); return; }
			i += g;
		}
		if (i == n && off[n] < bl) {
			cur(nnbu8[k], b, bl, 1, off[n]);
			if ((h = nbu8[k]((char *)b + off[n], bl - off[n])) != 0) { fail("incomplete tail", "\"got\":%lu", h); return; }
		}
	}
	for (k = 0; k < 3; k++) {
		g = tocp[k](T, n, O, 4 * n + 4);
		if (g > 4 * n) continue;
		j = toutf8(O, g, EB);
		cur(ntou8[k], b, bl, 1, -1);
		h = tou8[k]((char *)b, bl, (char *)OB, j + 8);
		if (h != j) { fail("length", "\"want\":%lu,\"got\":%lu", j, h); return; }
		if (memcmp(OB, EB, j)) { for (i = 0; OB[i] == EB[i]; i++); fail("conversion", "\"pos\":%lu", i); return; }
		e = f = ~0ul; 
		r = iscp[k](T, n, &e);
		cur(nisu8[k], b, bl, 1, -1);
		q = isu8[k]((char *)b, bl, &f);
		if (r != q) { fail("detection", "\"want\":%d,\"got\":%d", r, q); return; }
		if (e <= n && f != off[e]) { fail("matching length", "\"want\":%lu,\"got\":%lu", (long)off[e], f); return; }
	}
}
/* C11: a text before a NUL, with the NUL as the last accessible unit or followed by junk */
static int longs;                      /* one in longs texts is long */
static void nulmode(int junk)
{
	size_t bl = 0, i, g, h, k, e, f, o; int u; bool r, q; uint_least32_t *d1 = E, *d2 = O;
	enum grapheme_bidirectional_direction d[2] = { 0, 0 };
	cases++;
	for (u = 0; u < 2; u++) {
		const unsigned char *s, *x;      /* s: NUL-terminated, x: explicit length */
		size_t w = u ? 1 : 4, len;
		if (u) {
			if (longs && rn(longs) == 0) { pumptext(20000); for (i = 0; i < n; i++) if (!T[i]) T[i] = 1; bl = toutf8(T, n, B); }
			else if (rn(4)) bl = bytes(B, rn(10) ? 24 : 200, 1); else { sigmatext(1 + rn(12)); bl = toutf8(T, n, B); }
			len = bl;
			x = memcpy(gs.hi - bl, B, bl);
		} else {
			if (longs && rn(longs) == 0) pumptext(20000); else if (rn(4)) randtext(rn(10) ? 12 : 100); else sigmatext(1 + rn(12));
			for (i = 0; i < n; i++) if (!T[i]) T[i] = 1;
			len = n;
			if (rn(4) == 0) T[rn(n)] = rn(2) ? (cp_t)rnd() | 1 : 0x110000 + rn(100);
			x = memcpy(gs.hi - n * 4, T, n * 4);
		}
		if (junk) { memcpy(B + 5000, x, len * w); memset(B + 5000 + len * w, 0, w);
			if (u) { h = bytes(B + 5000 + len + 1, 20, 0); } else { randtext(6); memcpy(B + 5000 + len * 4 + 4, T, n * 4); }
			s = B + 5000;
		} else { memcpy(gd.hi - (len + 1) * w, x, len * w); memset(gd.hi - w, 0, w); s = gd.hi - (len + 1) * w; }
		/* explicit: the last incomplete sequence counts when a NUL ends it, so give the
		 * explicit variant complete text only */
		if (u) for (;;) { for (o = 0; o < len; o += g) { cp_t c; g = u8_step(x + o, len - o, &c); if (g > len - o) break; }
			if (o == len) break;
			if (o < len) { /* cut the tail off in both */
				size_t cut = len - o; len = o; x = memmove(gs.hi - len, x, len);
				unsigned char *s2 = (unsigned char *)s; if (!junk) { s2 = memmove(gd.hi - len - 1, s, len); s2[len] = 0; } else s2[len] = 0;
				s = s2; (void)cut; } }
		memmove(gs.hi - len * w, x, len * w); x = gs.hi - len * w;
		for (k = 0; k < 4; k++) for (i = o = 0; i <= len;) {
			if (len > 3000 && ++o > 50) break;
			cur(u ? nnbu8[k] : nnbcp[k], x, len, w, i);
			g = u ? nbu8[k]((char *)x + i, len - i) : nbcp[k]((cp_t *)x + i, len - i);
			h = u ? nbu8[k]((char *)s + i, SIZE_MAX) : nbcp[k]((cp_t *)s + i, SIZE_MAX);
			if (g != h) { fail("segment", "\"explicit\":%lu,\"nul\":%lu", g, h); return; }
			if (!g || g > len - i) break;
			i += g;
		}
		for (k = 0; k < 3; k++) {
			cur(u ? ntou8[k] : ntocp[k], x, len, w, -1);
			size_t room = 12 * len + 8; 
			memset(d1, 1, room * w); memset(d2, 1, room * w);
			g = u ? tou8[k]((char *)x, len, (char *)d1, room) : tocp[k]((cp_t *)x, len, d1, room);
			h = u ? tou8[k]((char *)s, SIZE_MAX, (char *)d2, room) : tocp[k]((cp_t *)s, SIZE_MAX, d2, room);
			if (g != h || (g < room && memcmp(d1, d2, g * w + w))) { fail("conversion", "\"explicit\":%lu,\"nul\":%lu", g, h); return; }
			cur(u ? nisu8[k] : niscp[k], x, len, w, -1);
			e = f = 0;
			r = u ? isu8[k]((char *)x, len, &e) : iscp[k]((cp_t *)x, len, &e);
			q = u ? isu8[k]((char *)s, SIZE_MAX, &f) : iscp[k]((cp_t *)s, SIZE_MAX, &f);
			if (r != q || e != f) { fail("detection", "\"explicit\":[%d,%lu],\"nul\":[%d,%lu]", r, e, q, f); return; }
		}
		if (!u) {
			cur("bidirectional_preprocess_paragraph", x, len, w, -1);
			memset(d1, 0, len * 4 + 4); memset(d2, 0, len * 4 + 4);
			g = grapheme_bidirectional_preprocess_paragraph((cp_t *)x, len, rn(2), d1, len, &d[0]);
			h = grapheme_bidirectional_preprocess_paragraph((cp_t *)s, SIZE_MAX, 0, d2, len, &d[1]);
			/* (the direction override is the same in both calls only if it is neutral) */
			g = grapheme_bidirectional_preprocess_paragraph((cp_t *)x, len, 0, d1, len, &d[0]);
			if (g != h || d[0] != d[1] || memcmp(d1, d2, len * 4)) { fail("paragraph", "\"explicit\":%lu,\"nul\":%lu", g, h); return; }
			h = grapheme_bidirectional_preprocess_paragraph((cp_t *)s, SIZE_MAX, 0, NULL, 0, &d[1]);
			if (g != h || d[0] != d[1]) { fail("paragraph length", "\"explicit\":%lu,\"nul\":%lu", g, h); return; }
		}
	}
	/* with an explicit length NUL is a character like U+0001 (same properties throughout) */
	randtext(rn(10) ? 10 : 80);
	memcpy(E, T, n * sizeof *T);
	for (k = 0, i = 1 + rn(3); i--;) { size_t at = rn(n); T[at] = 0; E[at] = 1; }
	memcpy(B, T, n * 4);                /* keep */
	for (u = 0; u < 2; u++) {
		static unsigned char b0[MAXN], b1[MAXN]; size_t len;
		const unsigned char *s, *x;
		if (u) { if (!allscalar()) break; len = toutf8(T, n, b0); toutf8(E, n, b1); s = b0; x = b1; }
		else { len = n; s = (unsigned char *)T; x = (unsigned char *)E; }
		for (k = 0; k < 4; k++) for (i = 0; i < len;) {
			cur(u ? nnbu8[k] : nnbcp[k], T, n, 4, i);
			g = u ? nbu8[k]((char *)x + i, len - i) : nbcp[k]((cp_t *)x + i, len - i);
			h = u ? nbu8[k]((char *)s + i, len - i) : nbcp[k]((cp_t *)s + i, len - i);
			if (g != h) { fail("segment with NUL inside", "\"like_U+0001\":%lu,\"got\":%lu", g, h); return; }
			if (!g || g > len - i) break;
			i += g;
		}
		for (k = 0; k < 3; k++) {
			static cp_t o0[MAXN], o1[MAXN]; size_t room = MAXN; unsigned char *p0 = (void *)o0, *p1 = (void *)o1;
			cur(u ? ntou8[k] : ntocp[k], T, n, 4, -1);
			g = u ? tou8[k]((char *)x, len, (char *)o1, room) : tocp[k]((cp_t *)x, len, o1, room);
			h = u ? tou8[k]((char *)s, len, (char *)o0, room) : tocp[k]((cp_t *)s, len, o0, room);
			if (g != h) { fail("conversion with NUL inside", "\"like_U+0001\":%lu,\"got\":%lu", g, h); return; }
			for (i = 0; i < g && i < room; i++)
				if (u ? p0[i] != p1[i] && !(p0[i] == 0 && p1[i] == 1) : o0[i] != o1[i] && !(o0[i] == 0 && o1[i] == 1)) { fail("conversion with NUL inside", "\"pos\":%lu", i); return; }
			cur(u ? nisu8[k] : niscp[k], T, n, 4, -1);
			e = f = 0;
			r = u ? isu8[k]((char *)x, len, &e) : iscp[k]((cp_t *)x, len, &e);
			q = u ? isu8[k]((char *)s, len, &f) : iscp[k]((cp_t *)s, len, &f);
			if (r != q || e != f) { fail("detection with NUL inside", ""); return; }
		}
		if (!u) {
			static cp_t l0[MAXN], l1[MAXN];
			cur("bidirectional_preprocess_paragraph", T, n, 4, -1);
			memset(l0, 0, n * 4); memset(l1, 0, n * 4);
			g = grapheme_bidirectional_preprocess_paragraph(E, n, 0, l1, n, &d[0]);
			h = grapheme_bidirectional_preprocess_paragraph(T, n, 0, l0, n, &d[1]);
			if (g != h || d[0] != d[1] || memcmp(l0, l1, n * 4)) { fail("paragraph with NUL inside", ""); return; }
		}
	}
}
/* C09: progress, tiling, whole characters, CR LF, independence of what stands before.
 * b: bytes */
static void tiling(const unsigned char *b, size_t bl)
{
	static uint32_t off[MAXN]; static uint8_t isoff[MAXN * 4]; size_t i, g, h, m; int k;
	cases++;
	decode(b, bl); memcpy(off, S, (n + 1) * sizeof *S); memset(isoff, 0, bl + 1);
	for (i = 0; i <= n; i++) isoff[off[i]] = 1;
	for (k = 0; k < 4; k++) {
		size_t first[2] = { 0, 0 }, steps = 0;
		for (i = 0; i < n; i += g, steps++) {
			cur(nnbcp[k], T, n, 4, i);
			g = nbcp[k](T + i, n - i);
			if (g == 0 || g > n - i) { fail("progress", "\"got\":%lu,\"rest\":%lu", g, n - i); return; }
			if (i + g < n && T[i + g - 1] == 13 && T[i + g] == 10) { fail("CR LF", "\"at\":%lu", i + g); return; }
			if (steps < 2) first[steps] = g;
			if (rn(4) == 0) {      /* the rest alone, somewhere else in memory */
				memcpy(gd.hi - (n - i) * 4, T + i, (n - i) * 4);
				h = nbcp[k]((cp_t *)(gd.hi - (n - i) * 4), n - i); calls++;
				if (h != g) { fail("depends on surroundings", "\"want\":%lu,\"got\":%lu", g, h); return; }
			}
		}
		(void)first;
		for (i = 0; i < bl; i += g) {
			cur(nnbu8[k], b, bl, 1, i);
			g = nbu8[k]((char *)b + i, bl - i);
			if (g == 0) { if (i == off[n]) break; fail("progress", "\"got\":0"); return; }
			if (g > bl - i || !isoff[i + g]) { fail("offset", "\"got\":%lu", g); return; }
			if (i + g < bl && b[i + g - 1] == 13 && b[i + g] == 10) { fail("CR LF", "\"at\":%lu", i + g); return; }
			if (rn(4) == 0) {
				memcpy(gd.hi - (bl - i), b + i, bl - i);
				h = nbu8[k]((char *)gd.hi - (bl - i), bl - i); calls++;
				if (h != g) { fail("depends on surroundings", "\"want\":%lu,\"got\":%lu", g, h); return; }
			}
		}
	}
	/* any values at all as codepoints, from every offset */
	m = n; if (!m) return;
	for (i = rn(3); i--;) T[rn(m)] = rn(2) ? (cp_t)rnd() : 0x110000 + rn(9);
	for (k = 0; k < 4; k++) for (i = 0; i < m; i++) {
		cur(nnbcp[k], T, m, 4, i);
		g = nbcp[k](T + i, m - i);
		if (g == 0 || g > m - i) { fail("progress", "\"got\":%lu,\"rest\":%lu", g, m - i); return; }
	}
}
static void emptycases(void)
{
	int k; size_t e; cp_t z = 0, o[4]; char c[4];
	for (k = 0; k < 4; k++) {
		cur(nnbcp[k], NULL, 0, 4, -1); cases++;
		if (nbcp[k](NULL, 0) || nbcp[k](NULL, 5) || nbcp[k](NULL, SIZE_MAX) || nbcp[k](&z, 0) || nbcp[k](&z, SIZE_MAX) || nbcp[k]((cp_t *)gs.hi, 0)) fail("empty", "");
		cur(nnbu8[k], NULL, 0, 1, -1);
		if (nbu8[k](NULL, 0) || nbu8[k](NULL, 5) || nbu8[k](NULL, SIZE_MAX) || nbu8[k]("a", 0) || nbu8[k]("", SIZE_MAX) || nbu8[k]((char *)gs.hi, 0)) fail("empty", "");
	}
	for (k = 0; k < 3; k++) {
		cur(ntocp[k], NULL, 0, 4, -1); cases++;
		o[0] = 9; if (tocp[k](NULL, 0, o, 4) || o[0]) fail("empty", "");
		o[0] = 9; if (tocp[k](&z, SIZE_MAX, o, 4) || o[0]) fail("empty", "");
		if (tocp[k](NULL, 0, NULL, 0) || tocp[k](&z, 0, NULL, 0)) fail("empty", "");
		cur(ntou8[k], NULL, 0, 1, -1);
		c[0] = 9; if (tou8[k](NULL, 0, c, 4) || c[0]) fail("empty", "");
		c[0] = 9; if (tou8[k]("", SIZE_MAX, c, 4) || c[0]) fail("empty", "");
		if (tou8[k](NULL, 0, NULL, 0) || tou8[k]("a", 0, NULL, 0)) fail("empty", "");
		cur(niscp[k], NULL, 0, 4, -1);
		e = 9; if (!iscp[k](NULL, 0, &e) || e) fail("empty", "");
		e = 9; if (!iscp[k](&z, SIZE_MAX, &e) || e) fail("empty", "");
		cur(nisu8[k], NULL, 0, 1, -1);
		e = 9; if (!isu8[k](NULL, 0, &e) || e) fail("empty", "");
		e = 9; if (!isu8[k]("", SIZE_MAX, &e) || e) fail("empty", "");
	}
}
/* C26: every function on a guarded text and a guarded destination; results do not matter */
static void memory(int u, size_t len, const void *x, int nul)
{
	size_t k, i, g, dl, steps; size_t w = u ? 1 : 4; size_t e; const unsigned char *s = x;
	cases++;
	for (k = 0; k < 4; k++) for (i = steps = 0; i < len && steps < 40; steps++) {
		cur(u ? nnbu8[k] : nnbcp[k], x, len, w, i);
		g = u ? nbu8[k]((char *)s + i, nul ? SIZE_MAX : len - i) : nbcp[k]((cp_t *)s + i, nul ? SIZE_MAX : len - i);
		if (g > len - i) { fail("beyond the end", "\"got\":%lu", g); return; }
		if (!g) break;
		i += g;
	}
	for (k = 0; k < 3; k++) {
		dl = rn(3) ? rn(3 * len + 3) : rn(4); if (dl * w > gd.cap) dl = gd.cap / w;
		cur(u ? ntou8[k] : ntocp[k], x, len, w, dl);
		if (u) tou8[k]((char *)s, nul ? SIZE_MAX : len, dl ? (char *)gd.hi - dl : rn(2) ? NULL : (char *)gd.hi, dl);
		else tocp[k]((cp_t *)s, nul ? SIZE_MAX : len, dl ? (cp_t *)(gd.hi - dl * 4) : rn(2) ? NULL : (cp_t *)gd.hi, dl);
		cur(u ? nisu8[k] : niscp[k], x, len, w, -1);
		e = 0;
		if (u) isu8[k]((char *)s, nul ? SIZE_MAX : len, rn(4) ? &e : NULL); else iscp[k]((cp_t *)s, nul ? SIZE_MAX : len, rn(4) ? &e : NULL);
		if (e > len) { fail("beyond the end", "\"got\":%lu", e); return; }
	}
	if (u) for (i = len > 20000 ? len - 20000 : 0; i < len; i++) {
		cp_t c; cur("decode_utf8", x, len, 1, i);
		g = grapheme_decode_utf8((char *)s + i, nul ? SIZE_MAX : len - i, &c);
		if (g < 1 || g > 4) { fail("decoded length", "\"got\":%lu", g); return; }
	} else {
		uint_least16_t st = 0;
		for (i = 0; i + 1 < len; i++) { cur("is_character_break", x, len, 4, i); grapheme_is_character_break(((cp_t *)s)[i], ((cp_t *)s)[i + 1], rn(9) ? &st : NULL); if (!rn(9)) st = 0; }
		for (i = 0; i < len && i < 8; i++) { size_t l = rn(6); cur("encode_utf8", x, len, 4, l); grapheme_encode_utf8(((cp_t *)s)[i], (char *)gd.hi - l, l); }
	}
}
static void memories(unsigned long cnt)
{
	while (cnt--) {
		int nul = rn(3) == 0; size_t len, i;
		if (rn(2)) {
			if (longs && rn(longs) == 0) { pumptext(80000); len = toutf8(T, n, B); while (rn(3)) B[rn(len)] = rnd(); if (nul) for (i = 0; i < len; i++) if (!B[i]) B[i] = 1; }
			else len = rn(4) ? bytes(B, rn(20) ? 30 : 3000, nul) : 1 + rn(40);
			if (rn(5) == 0) for (i = 0; i < len; i++) B[i] = rnd();
			else if (rn(6) == 0) for (i = 0; i < len; i++) B[i] = bb[1 + rn(sizeof bb - 1)];
			if (nul) { for (i = 0; i < len; i++) if (!B[i]) B[i] = 0xF0; B[len] = 0; memcpy(gs.hi - len - 1, B, len + 1); memory(1, len, gs.hi - len - 1, 1); }
			else { memcpy(gs.hi - len, B, len); memory(1, len, gs.hi - len, 0); }
		} else {
			if (longs && rn(longs) == 0) pumptext(79000); else randtext(rn(20) ? 16 : 1000);
			if (rn(2)) for (i = 0; i < n; i++) if (rn(3) == 0) T[i] = rn(3) ? (cp_t)rnd() >> rn(12) : 0x110000 + rn(0x300);
			for (i = 0; i < n; i++) if (nul && !T[i]) T[i] = 1;
			T[n] = 0;
			if (nul) { memcpy(gs.hi - 4 * n - 4, T, 4 * n + 4); memory(0, n, gs.hi - 4 * n - 4, 1); }
			else { memcpy(gs.hi - 4 * n, T, 4 * n); memory(0, n, gs.hi - 4 * n, 0); }
		}
		if (nfail > 20) done();
	}
	/* every value of the property tables' index range, and beyond */
	emptycases();
}
/* lengths around 2^31, 2^32, 2^33: destinations that large; texts said to be that large */
static void huge(unsigned long cnt)
{
	cp_t *f4; unsigned char *f1; size_t k, u, i, L, m, bl; volatile size_t g; volatile bool r; size_t e;
	fault_init(); f4 = far_(4); f1 = far_(1);
	for (i = 0; i < cnt && f4 && f1 && one != detect; i++) {
		randtext(12); if (!allscalar()) continue;
		bl = toutf8(T, n, B); cases++;
		for (k = 0; k < 3; k++) {
			m = conv(k, T, n, E, S); size_t el = toutf8(E, m, EB);
			L = hugelen(rn(1000), m + 1); cur(ntocp[k], T, n, 4, L);
			memset(f4, 0xA5, 4 * m + 8);
			argument(T, n, 4); g = tocp[k](arg_, argl, f4, L); cur_arg = L;
			if (g != m || memcmp(f4, E, 4 * m) || f4[m]) fail("huge destination", "\"want\":%lu,\"got\":%lu", m, g);
			L = hugelen(rn(1000), el + 1); cur(ntou8[k], T, n, 4, L);
			memset(f1, 0xA5, el + 4);
			argument(B, bl, 1); g = tou8[k](arg_, argl, (char *)f1, L); cur_arg = L;
			if (g != el || memcmp(f1, EB, el) || f1[el]) fail("huge destination", "\"want\":%lu,\"got\":%lu", el, g);
		}
		if (nfail > 20) return;
	}
	for (i = 0; i < 40; i++) for (k = 0; k < 3; k++) for (u = 0; u < 2; u++) {
		size_t w = u ? 1 : 4, q; m = 3 + rn(rn(2) ? 9 : 2000);
		for (q = 0; q < m; q++) T[q] = k == 0 || (k == 2 && q == 0) ? 'A' : 'a';
		n = m; toutf8(T, m, B); memcpy(gs.hi - m * w, u ? (void *)B : (void *)T, m * w);
		L = hugelen(rn(1000), m); cases++;
		const void *p = gs.hi - m * w;
		if (one == detect) {
			cur(u ? nisu8[k] : niscp[k], T, m, 4, L);
			if (!FAULTS(r = u ? isu8[k](p, L, rn(2) ? &e : NULL) : iscp[k](p, L, rn(2) ? &e : NULL))) fail("part of the text left out", "\"got\":%d", r);
		} else {
			size_t dl = rn(3) ? rn(40) : 0; void *d = dl || rn(2) ? gd.hi - dl * w : NULL;
			cur(u ? ntou8[k] : ntocp[k], T, m, 4, L);
			if (!FAULTS(g = u ? tou8[k](p, L, d, dl) : tocp[k](p, L, d, dl))) fail("part of the text left out", "\"got\":%lu", g);
		}
		if (nfail > 20) return;
	}
}
static void record(unsigned long cnt)
{
	while (cnt--) {
		int k; size_t g, i, e; bool r;
		randtext(9); cases++;
		if (rn(3) == 0) for (i = 0; i < n; i++) if (rn(3) == 0) T[i] = rn(2) ? 0x3A3 : 0x27;
		printf("SAMPLE {\"t\":"); put_txt(T, n, 4);
		for (k = 0; k < 3; k++) {
			cur(ntocp[k], T, n, 4, -1);
			g = tocp[k](T, n, O, 4 * n + 4); if (g > 4 * n) g = 0;
			printf(",\"%c\":", "ulc"[k]); put_txt(O, g, 4);
			cur(niscp[k], T, n, 4, -1);
			r = iscp[k](T, n, &e); printf(",\"m%c\":[%d,%lu]", "ult"[k], r, e);
		}
		printf("}\n");
	}
}
static void each(unsigned long shard, unsigned long ns, void (*fn)(const unsigned char *, size_t))
{
	unsigned long x; unsigned char s[64], *p; size_t l;
	for (x = shard; x < 128ul * 128 * 128; x += ns) {
		p = gs.hi - 3; p[0] = x % 128; p[1] = x / 128 % 128; p[2] = x / 128 / 128;
		fn(p, 3);
		if (nfail > 20) done();
	}
	for (x = 1 + shard; x < NCPS; x += ns) {
		if (!scalar(x)) continue;
		randtext(3); l = toutf8(T, rn(n + 1), s); l += enc(x, s + l); randtext(3); l += toutf8(T, rn(n + 1), s + l);
		if (l > 3 && rn(8) == 0) l -= 1 + rn(3);
		p = memcpy(gs.hi - l, s, l); fn(p, l);
		if (nfail > 20) done();
	}
}
static void exbytes(int len, unsigned long shard, unsigned long ns, void (*fn)(const unsigned char *, size_t))
{
	static const unsigned char al[] = { 'a', 'B', ' ', '.', 0, 13, 10, 0xCE, 0xA3, 0xC3, 0x9F, 0xE2, 0x80, 0x99, 0xF0, 0xFF, 0xED, 0xA0, 0xCC, 0x81 };
	unsigned long t, x, y; int l, i; unsigned char s[8];
	for (l = 1; l <= len; l++) {
		for (t = 1, i = 0; i < l; i++) t *= sizeof al;
		for (x = shard; x < t; x += ns) {
			for (y = x, i = 0; i < l; i++, y /= sizeof al) s[i] = al[y % sizeof al];
			memcpy(gs.hi - l, s, l);
			fn(gs.hi - l, l);
			if (nfail > 20) done();
		}
	}
}
int main(int argc, char **argv)
{
	if (argc < 7) return 9;
	unsigned long arg = strtoul(argv[3], 0, 10), shard = strtoul(argv[4], 0, 10), ns = strtoul(argv[5], 0, 10), i; char *mode = argv[2];
	h_init(strtoul(argv[6], 0, 10) * 1000 + shard);
	T = malloc(4 * MAXN); roff = malloc(4 * MAXN); E = malloc(16 * MAXN); O = malloc(16 * MAXN); S = malloc(16 * MAXN); B = malloc(16 * MAXN); OB = malloc(16 * MAXN); EB = malloc(16 * MAXN);
	gs = g_new(1 << 19); gd = g_new(1 << 19);
	load(argv[1]);
	cur_what = mode; ctext(0);
	one = strstr(mode, "detect") ? detect : strstr(mode, "buf") ? buffers : convert;
	if (strstr(mode, "huge")) huge(arg);
	else if (strstr(mode, "sweep")) sweep(shard, ns);
	else if (strstr(mode, "embedded")) embedded(arg, shard, ns);
	else if (strstr(mode, "ascii")) ascii(shard, ns);
	else if (strstr(mode, "exhaust")) exhaust(arg, shard, ns, !!strstr(mode, "both"));
	else if (strstr(mode, "bytes")) bytetexts(arg);
	else if (strstr(mode, "pump-u8")) for (i = 0; i < arg; i++) { pumptext(60000); size_t l = toutf8(T, n, B);
			if (rn(2)) { for (size_t q = rn(4); q--;) B[rn(rn(2) ? l : l < 20 ? l : 20)] = bb[rn(sizeof bb)]; if (rn(2)) B[l - 1 - rn(l < 20 ? l : 20)] = bb[rn(sizeof bb)]; }
			unsigned char *p = memcpy(gs.hi - l, B, l); encodings(p, l); if (nfail > 20) break; }
	else if (strstr(mode, "pump")) for (i = 0; i < arg; i++) { pumptext(one == buffers ? 20000 : 70100); all(); if (nfail > 20) break; }
	else if (strstr(mode, "sigma")) sigmas(arg);
	else if (strstr(mode, "random")) for (i = 0; i < arg; i++) { randtext(rn(30) ? 18 : 1500); if (rn(15) == 0) T[rn(n)] = 0x110000 + rn(0x10000); all(); if (nfail > 20) break; }
	else if (!strcmp(mode, "u8")) {
		exbytes(4, shard, ns, encodings); each(shard, ns, encodings);
		for (i = 0; i < arg; i++) { size_t l = bytes(B, rn(30) ? 24 : 1500, 0); unsigned char *p = memcpy(gs.hi - l, B, l); encodings(p, l); if (nfail > 20) break; }
	} else if (!strcmp(mode, "nul")) { emptycases(); longs = 150; for (i = 0; i < arg; i++) { nulmode(i & 1); if (nfail > 20) break; } }
	else if (!strcmp(mode, "tile")) {
		emptycases(); exbytes(4, shard, ns, tiling); each(shard, ns, tiling);
		for (i = 0; i < arg; i++) { size_t l = bytes(B, rn(30) ? 30 : 2500, 0); for (size_t q = 0; q < l; q++) if (rn(12) == 0) B[q] = rn(2) ? 13 : 10; unsigned char *p = memcpy(gs.hi - l, B, l); tiling(p, l); if (nfail > 20) break; }
	}
	else if (!strcmp(mode, "memory")) { longs = 100; memories(arg); }
	else if (!strcmp(mode, "record")) record(arg);
	else return 9;
	done();
}

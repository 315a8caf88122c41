/* Replays behaviours of spec/Stream.tla: a text comes in portions, readers use the library on
 * what is there.  Expectations come from the tables of UTF8.tla, Grapheme.tla, Case.tla, Word.tla.
 * usage: stream TEXTTABLE MODE ARG SHARD NSHARD SEED GRAPHEMETABLE */
#define main text_main
#include "text.c"
#undef main
static struct { int nc, nl, nr, dflt; int *ln, *rn; uint8_t *bk, *cls; } G;
static cp_t **gmem; static size_t *gnmem;
static void gload(const char *p)
{
	FILE *f = fopen(p, "r"); long i, j, k, runs;
	if (!f) { perror(p); exit(9); }
	G.nc = rdint(f); G.nl = rdint(f); G.nr = rdint(f); G.dflt = rdint(f);
	G.ln = calloc(G.nl * G.nc, sizeof(int)); G.rn = calloc(G.nr * G.nc, sizeof(int)); G.bk = calloc(G.nl * G.nr, 1); G.cls = malloc(NCPS);
	for (i = 0; i < G.nl * G.nc; i++) G.ln[i] = rdint(f);
	for (i = 0; i < G.nr * G.nc; i++) G.rn[i] = rdint(f);
	for (i = 0; i < G.nl * G.nr; i++) G.bk[i] = rdint(f);
	for (runs = rdint(f), i = 0; i < runs; i++) { long a = rdint(f), b = rdint(f); k = rdint(f); for (j = a; j <= b; j++) G.cls[j] = k; }
	fclose(f);
	gmem = calloc(G.nc, sizeof *gmem); gnmem = calloc(G.nc, sizeof *gnmem);
	for (k = 0; k < 2; k++) for (i = 0; i < G.nc; i++) {
		size_t m = 0;
		for (j = 1; j < NCPS; j++) if (G.cls[j] == i && scalar(j)) { if (k) gmem[i][m] = j; m++; }
		if (!k) gmem[i] = malloc((m + 1) * sizeof(cp_t)), gnmem[i] = m;
	}
}
static cp_t gpick(void) { int c = rn(G.nc); return gmem[c][rn(rn(3) ? gnmem[c] : gnmem[c] < 3 ? gnmem[c] : 3)]; }

/* ------------------------------------------------------------ the complete text */
static unsigned char *tx; static size_t tl;          /* bytes */
static cp_t *wt; static size_t wn; static uint32_t *wo;   /* decoded text, offset of every codepoint and of the end */
static uint8_t *wb;                                  /* boundary before codepoint i */
static cp_t *wc[3]; static size_t wcn[3]; static uint32_t *ws;   /* conversions */
static uint32_t *wcat;                               /* upper, lower: start of what codepoint i becomes */
static int hassigma, wis[3];
static void whole(void)
{
	size_t i; int l = 0, k; static int *r;
	if (!r) r = malloc((MAXN + 1) * sizeof *r);
	decode(tx, tl); wn = n; memcpy(wt, T, n * sizeof *T); memcpy(wo, S, (n + 1) * sizeof *S);
	for (r[wn] = 0, i = wn; i-- > 0;) r[i] = G.rn[r[i + 1] * G.nc + G.cls[wt[i]]];
	for (i = 0; i < wn; i++) { wb[i] = i && G.bk[l * G.nr + r[i]]; l = G.ln[l * G.nc + G.cls[wt[i]]]; }
	wb[wn] = 1;
	for (hassigma = 0, i = 0; i < wn; i++) hassigma |= wt[i] == 0x3A3;
	for (k = 0; k < 3; k++) wcn[k] = conv(k, wt, wn, wc[k], ws), wis[k] = wcn[k] == wn && !memcmp(wc[k], wt, wn * sizeof *wt);
}
/* number of complete codepoints in the first end units: a malformed sequence at the end that more bytes could
 * complete is not one yet */
static size_t complete(int unit, size_t end, size_t i)
{
	cp_t c;
	if (unit == 4) return end;
	while (i < wn && wo[i + 1] <= end && u8_step(tx + wo[i], end - wo[i], &c) <= end - wo[i]) i++;
	return i;
}
static int rec;                                       /* print what the readers obtain */
static void put_list(const char *k, const uint32_t *v, size_t m)
{
	printf(",\"%s\":[", k); for (size_t i = 0; i < m; i++) printf("%s%lu", i ? "," : "", (unsigned long)v[i]); printf("]");
}
#define BAD(kind, ...) do { fail(kind, __VA_ARGS__); return; } while (0)
/* unit 1: bytes, unit 4: codepoints.  cut[i]: end of portion i (in units), the last one is the whole text */
static void stream(int unit, const size_t *cut, size_t nc, int reset)
{
	static uint32_t *la, *lb; static cp_t *lc; size_t na = 0, nb = 0, nlc = 0;
	size_t L = unit == 1 ? tl : wn, a = 0, ai = 0, b = 0, bi = 0, c = 0, ci = 0, com = 0, g, i, p, m, h; cp_t prev = 0, y; uint_least16_t st = 0;
	int k = hassigma ? 0 : rn(2); int is[2] = { 1, 1 }; size_t opos = 0;
	if (!la) { la = malloc(4 * MAXN); lb = malloc(4 * MAXN); lc = malloc(16 * MAXN); }
	cases++;
	cur_txt = unit == 1 ? (void *)tx : (void *)wt; cur_len = L; cur_w = unit;
	if (rec) { printf("SAMPLE {\"t\":"); put_txt(tx, tl, 1); printf(",\"ev\":["); k = 0; }
	for (p = 0; p < nc; p++) {
		size_t end = cut[p]; int last = p + 1 == nc, r1 = reset == 2 ? rn(2) : reset; bool q;
		/* what has come ends where accessible memory ends */
		const unsigned char *base = gs.hi - end * unit;
		size_t keep = a < b ? a : b; if (c < keep) keep = c;
		memcpy((void *)(base + keep * unit), (unit == 1 ? (void *)tx : (void *)wt) + keep * unit, (end - keep) * unit);
#define AT(o) ((char *)base + (o) * unit)
		cur_arg = end; com = complete(unit, end, com);
		/* A: codepoint by codepoint, pairwise test */
		while (a < end) {
			calls++;
			if (unit == 1) {
				cur_fn = "decode_utf8"; y = 0x1234567;
				g = grapheme_decode_utf8(AT(a), end - a, &y);
				if (g > end - a) {
					cp_t z; size_t w = u8_step(tx + a, end - a, &z);
					if (w != g) BAD("needed length", "\"at\":%lu,\"want\":%lu,\"got\":%lu", a, w, g);
					break;
				}
				if (ai >= wn || g != wo[ai + 1] - wo[ai] || y != wt[ai]) BAD("decoded", "\"at\":%lu,\"got\":%lu", a, g);
			} else { y = wt[ai]; g = 1; }
			if (ai) {
				cur_fn = "is_character_break";
				q = grapheme_is_character_break(prev, y, &st);
				if (q != wb[ai]) BAD("pair", "\"at\":%lu,\"want\":%d,\"got\":%d", a, wb[ai], q);
				if (q) { la[na++] = a; if (r1) st = 0; }
			}
			prev = y; a += g; ai++;
		}
		if (ai != com) BAD("undecoded", "\"at\":%lu", a);
		/* B: next break, accepted when a complete codepoint stands behind it */
		for (;;) {
			calls++; cur_fn = unit == 1 ? "next_character_break_utf8" : "next_character_break";
			g = unit == 1 ? grapheme_next_character_break_utf8(AT(b), end - b) : grapheme_next_character_break((cp_t *)AT(b), end - b);
			if (g > end - b) BAD("beyond what came", "\"at\":%lu,\"got\":%lu", b, g);
			if (!g) { if (bi < com) BAD("no break", "\"at\":%lu", b); break; }
			if (!last) {
				if (b + g >= end) break;
				if (unit == 1) { cur_fn = "decode_utf8"; if (grapheme_decode_utf8(AT(b + g), end - b - g, &y) > end - b - g) break; }
			}
			for (i = bi + 1; i < wn && !wb[i]; i++);
			h = unit == 1 ? wo[i] : i;
			if (b + g != h) BAD("accepted break", "\"at\":%lu,\"want\":%lu,\"got\":%lu", b, h - b, g);
			b += g; bi = i; lb[nb++] = b;
		}
		if (!last) {    /* none that could be known is left out */
			for (i = bi + 1; i < wn && !wb[i]; i++);
			if (i < com) BAD("break withheld", "\"at\":%lu", b);
		}
		/* C: context-free conversion and detection of the complete codepoints */
		if (end > c) {
			size_t room; 
			i = com;
			calls += 3; cur_fn = unit == 1 ? ntou8[k] : ntocp[k];
			/* what it must be: this part of the whole outcome */
			m = conv(k, wt + ci, i - ci, E, S);
			if (opos + m > wcn[k] || memcmp(E, wc[k] + opos, m * sizeof *E)) { fprintf(stderr, "conversion depends on context\n"); exit(9); }
			opos += m;
			if (unit == 1) {
				m = toutf8(E, m, EB); room = m + 1; unsigned char *d = gd.hi - room; d[-1] = 0x77;
				g = tou8[k](AT(c), end - c, (char *)d, room);
				if (g != m || memcmp(d, EB, m) || d[m] || d[-1] != 0x77) BAD("conversion of a part", "\"from\":%lu,\"want\":%lu,\"got\":%lu", c, m, g);
			} else {
				room = m + 1; cp_t *d = (cp_t *)gd.hi - room;
				g = tocp[k]((cp_t *)AT(c), end - c, d, room);
				if (g != m || memcmp(d, E, m * 4) || d[m]) BAD("conversion of a part", "\"from\":%lu,\"want\":%lu,\"got\":%lu", c, m, g);
			}
			if (rec) for (size_t z = 0; z < (unit == 1 ? 0 : m); z++) lc[nlc++] = E[z];
			if (rec && unit == 1) { const unsigned char *d = gd.hi - room; cp_t z; for (size_t o = 0; o < g;) { o += u8_step(d + o, g - o, &z); lc[nlc++] = z; } }
			for (h = 0; h < (hassigma ? 1 : 2); h++) {
				size_t e = ~0ul, f;
				cur_fn = unit == 1 ? nisu8[h] : niscp[h];
				q = unit == 1 ? isu8[h](AT(c), end - c, &e) : iscp[h]((cp_t *)AT(c), end - c, &e);
				f = matching(h, wt + ci, i - ci);
				if (q != (f == i - ci) || e != (unit == 1 ? wo[ci + f] - wo[ci] : f)) BAD("detection on a part", "\"from\":%lu,\"got\":%d,\"matching\":%lu", c, q, e);
				is[h] &= q;
			}
			ci = i; c = unit == 1 ? wo[i] : i;
		}
		if (rec) { printf("%s{\"k\":%lu,\"reset\":%d,\"close\":%d", p ? "," : "", (unsigned long)(end - (p ? cut[p - 1] : 0)), r1, last); put_list("a", la, na); put_list("b", lb, nb); put_list("c", lc, nlc); printf("}"); }
	}
	if (rec) printf("]}\n");
	for (h = 0; h < (hassigma ? 1 : 2); h++) if (is[h] != wis[h]) { cur_fn = unit == 1 ? nisu8[h] : niscp[h]; BAD("detection of the parts", "\"want\":%d,\"got\":%d", wis[h], is[h]); }
	if (b != (unit == 1 ? wo[wn] : wn) || a != b || c != b) BAD("not all of it", "\"a\":%lu,\"b\":%lu,\"c\":%lu", a, b, c);
}
/* the complete text word by word */
static void wordwise(int unit)
{
	size_t L = unit == 1 ? tl : wn, o, g, m, q, s; unsigned char *src = gs.hi - L * unit, *x = EB;
	cp_t c;
	if (!wn) return;
	/* a malformed sequence at the end of a word, taken alone, is one that is cut off */
	for (o = 0; unit == 1 && o < wn; o++) if (u8_step(tx + wo[o], wo[o + 1] - wo[o], &c) > wo[o + 1] - wo[o]) return;
	memcpy(src, unit == 1 ? (void *)tx : (void *)wt, L * unit);
	cur_txt = unit == 1 ? (void *)tx : (void *)wt; cur_len = L; cur_w = unit; cases++;
	m = unit == 1 ? toutf8(wc[2], wcn[2], EB) : wcn[2]; if (unit == 4) x = (void *)wc[2];
	for (o = q = 0; o < L; o += g) {
		calls += 2; cur_arg = o; cur_fn = unit == 1 ? "next_word_break_utf8" : "next_word_break";
		g = unit == 1 ? grapheme_next_word_break_utf8((char *)src + o, L - o) : grapheme_next_word_break((cp_t *)src + o, L - o);
		if (!g) break;
		if (g > L - o) BAD("beyond the text", "\"got\":%lu", g);
		cur_fn = unit == 1 ? ntou8[2] : ntocp[2];
		s = unit == 1 ? tou8[2]((char *)src + o, g, (char *)OB, 12 * g + 4) : tocp[2]((cp_t *)src + o, g, O, 4 * g + 4);
		if (s > m - q || memcmp(x + q * unit, unit == 1 ? (void *)OB : (void *)O, s * unit)) BAD("titlecase of a word", "\"from\":%lu,\"length\":%lu", o, g);
		q += s;
	}
	if (q != m) BAD("titlecase of the words", "\"want\":%lu,\"got\":%lu", m, q);
}
static size_t cuts[MAXN];
static void portions(int unit)                        /* random portions */
{
	size_t L = unit == 1 ? tl : wn, nc = 0, p = 0; int style = rn(4); size_t mx = style == 0 ? 1 : style == 1 ? 3 : style == 2 ? 16 : 4096;
	if (L > 3000) mx = 1 + L / (1 + rn(40));
	while (p < L) { p += 1 + rn(mx); if (p > L) p = L; cuts[nc++] = p; }
	if (!nc) return;
	if (L > 100 && rn(3) == 0) { /* a fine part somewhere */
		size_t at = rn(nc), from = at ? cuts[at - 1] : 0, to = cuts[at], k, add = to - from - 1 < 40 ? to - from - 1 : 40;
		memmove(cuts + at + add, cuts + at, (nc - at) * sizeof *cuts); nc += add;
		for (k = 0; k < add; k++) cuts[at + k] = from + k + 1;
	}
	stream(unit, cuts, nc, rn(3));
}
static void allportions(size_t maxall)
{
	size_t m, nc, i; unsigned long lim;
	if (!tl) return;
	if (tl - 1 <= maxall) {
		lim = 1ul << (tl - 1);
		for (m = 0; m < lim; m++) {
			for (nc = 0, i = 1; i < tl; i++) if (m >> (i - 1) & 1) cuts[nc++] = i;
			cuts[nc++] = tl;
			stream(1, cuts, nc, m % 3);
			if (nfail > 20) return;
		}
	} else {
		for (i = 1; i <= tl; i++) { nc = 0; if (i < tl) cuts[nc++] = i; cuts[nc++] = tl; stream(1, cuts, nc, i % 3); }
		for (i = 0; i < tl; i++) cuts[i] = i + 1;
		stream(1, cuts, tl, rn(3));
		for (i = 0; i < 20; i++) portions(1);
	}
	if (wn) portions(4);
	wordwise(1); wordwise(4);
}
/* one token: a codepoint of every grapheme class, some that are special for case, fragments of sequences */
static const char *frag[] = { "\xF0\x9F", "\xE2\x80", "\xCC", "\x81", "\xFF", "\xF0", "\xED\xA0", "\x98\x80", "\xF0\x9F\x98", "\xE0\x80" };
static const cp_t special[] = { 0xDF, 0x3A3, 0x149, 'z', 'Q', 0x1F88, 0xFFFD, 0x10400 };
#define NFRAG 10
#define NSPEC 8
static size_t token(int t, unsigned char *o)
{
	if (t < G.nc) return enc(gmem[t][rn(rn(3) ? gnmem[t] : gnmem[t] < 4 ? gnmem[t] : 4)], o);
	if (t < G.nc + NSPEC) return enc(special[t - G.nc], o);
	t -= G.nc + NSPEC; if (t == NFRAG) { *o = 0; return 1; }
	return strlen(memcpy(o, frag[t], strlen(frag[t]) + 1));
}
static void exstream(int len, unsigned long shard, unsigned long ns)
{
	unsigned long t, x, y, nt = G.nc + NSPEC + NFRAG + 1; int l, i;
	for (l = 1; l <= len; l++) {
		for (t = 1, i = 0; i < l; i++) t *= nt;
		for (x = shard; x < t; x += ns) {
			for (tl = 0, y = x, i = 0; i < l; i++, y /= nt) tl += token(y % nt, tx + tl);
			whole(); allportions(l < 4 ? 8 : 5);
			if (nfail > 20) return;
		}
	}
}
static void randbytes(size_t max)
{
	size_t want = 1 + rn(max), k;
	switch (rn(5)) {
	case 0: tl = bytes(tx, want, 0); break;
	case 1: randtext(want); for (k = 0; k < n; k++) if (!scalar(T[k])) T[k] = 'x'; tl = toutf8(T, n, tx); break;
	default: for (tl = 0; tl < want;) { if (rn(14) == 0) tl += token(G.nc + rn(NSPEC + NFRAG + 1), tx + tl); else tl += enc(gpick(), tx + tl);
			if (rn(40) == 0) { size_t o = tl > 4 ? tl - 4 : 0, q = tl - o; for (k = 1 + rn(6); k--;) { memcpy(tx + tl, tx + o, q); tl += q; } } }
	}
	if (rn(3) == 0 && tl > 1) tl -= 1 + rn(tl < 4 ? tl - 1 : 3);
}
int main(int argc, char **argv)
{
	if (argc < 8) return 9;
	unsigned long arg = strtoul(argv[3], 0, 10), shard = strtoul(argv[4], 0, 10), ns = strtoul(argv[5], 0, 10), i; char *mode = argv[2]; int k;
	h_init(strtoul(argv[6], 0, 10) * 1000 + shard);
	T = malloc(4 * MAXN); roff = malloc(4 * MAXN); E = malloc(16 * MAXN); O = malloc(16 * MAXN); S = malloc(16 * MAXN); B = malloc(16 * MAXN); OB = malloc(16 * MAXN); EB = malloc(16 * MAXN);
	gs = g_new(1 << 19); gd = g_new(1 << 21);
	load(argv[1]); gload(argv[7]);
	tx = malloc(8 * MAXN); wt = malloc(4 * MAXN); wo = malloc(4 * MAXN + 4); wb = malloc(MAXN + 1); ws = malloc(16 * MAXN);
	for (k = 0; k < 3; k++) wc[k] = malloc(16 * MAXN);
	cur_what = mode;
	if (!strcmp(mode, "exhaust")) exstream(arg, shard, ns);
	else if (!strcmp(mode, "random")) for (i = 0; i < arg && nfail <= 20; i++) {
		randbytes(rn(20) ? 30 : 600); whole();
		for (k = 0; k < 3; k++) { portions(1); if (wn) portions(4); }
		wordwise(1); wordwise(4);
	} else if (!strcmp(mode, "pump")) for (i = 0; i < arg && nfail <= 20; i++) {
		unsigned char p[64]; size_t pl, q, r; 
		randbytes(4); if (tl > 20) tl = 20; pl = tl; memcpy(p, tx, pl);
		randbytes(8); for (r = reps[rn(26)], q = 0; q < r && tl + pl < 60000; q++) { memcpy(tx + tl, p, pl); tl += pl; }
		memcpy(tx + tl, p, q = 1 + rn(pl)); tl += q; if (rn(2)) { size_t o = tl; tl += token(rn(G.nc + NSPEC), tx + o); }
		whole(); portions(1); if (wn) portions(4); wordwise(1); wordwise(4);
	} else if (!strcmp(mode, "record")) { rec = 1; for (i = 0; i < arg && !nfail; i++) { randbytes(rn(4) ? 14 : 5); whole(); if (tl) { size_t nc = 0, q = 0; while (q < tl) { q += 1 + rn(rn(2) ? 2 : 8); if (q > tl) q = tl; cuts[nc++] = q; } stream(1, cuts, nc, rn(3)); } } }
	else return 9;
	done();
}

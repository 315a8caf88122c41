/* Replays behaviours of the segmentation bimachines (tables emitted by TLC from
 * spec/{Grapheme,Word,Sentence,Line}.tla) into the library.
 * usage: seg TABLEFILE API MODE ARG SHARD NSHARD SEED [NRAND] */
#include "h.h"

typedef size_t (*fcp)(const cp_t *, size_t);
typedef size_t (*fu8)(const char *, size_t);
static const struct { const char *n; fcp cp; fu8 u8; const char *ncp, *nu8; } apis[] = {
#define A(x, y) { x, grapheme_next_##y##_break, grapheme_next_##y##_break_utf8, "next_" #y "_break", "next_" #y "_break_utf8" }
	A("grapheme", character), A("word", word), A("sentence", sentence), A("line", line)
};
static int nc, nl, nr, dflt;
static int *ln, *rn_; static uint8_t *bk;
static uint8_t *cls;             /* class of every codepoint */
static cp_t **mem; static size_t *nmem;
static int api; static int is_state;   /* C05: pairwise test */

#define MAXN 400000
static cp_t *txt, *buf; static uint8_t *cl; static int *rst; static unsigned char *u8; static uint32_t *u8off;
static size_t n;
/* access word of every left state, suffix word of every right state */
static uint8_t (*acc)[16], (*suf)[16]; static int *acclen, *suflen;
static int *lst, *rst_, nlr, nrr; /* reachable states */

static void load(const char *p)
{
	FILE *f = fopen(p, "r"); long i, j, k, runs;
	if (!f) { perror(p); exit(9); }
	nc = rdint(f); nl = rdint(f); nr = rdint(f); dflt = rdint(f);
	ln = calloc(nl * nc, sizeof *ln); rn_ = calloc(nr * nc, sizeof *rn_); bk = calloc(nl * nr, 1);
	for (i = 0; i < nl * nc; i++) ln[i] = rdint(f);
	for (i = 0; i < nr * nc; i++) rn_[i] = rdint(f);
	for (i = 0; i < nl * nr; i++) bk[i] = rdint(f);
	runs = rdint(f);
	cls = malloc(0x110000); nmem = calloc(nc, sizeof *nmem); mem = calloc(nc, sizeof *mem);
	for (i = 0; i < runs; i++) {
		long a = rdint(f), b = rdint(f); k = rdint(f);
		for (j = a; j <= b; j++) cls[j] = k;
	}
	fclose(f);
	for (k = 0; k < 2; k++)
		for (i = 0; i < nc; i++) {
			size_t m = 0;
			for (j = 1; j < 0x110000; j++)
				if (cls[j] == i && !(j >= 0xD800 && j <= 0xDFFF)) { if (k) mem[i][m] = j; m++; }
			if (!k) mem[i] = malloc((m + 1) * sizeof(cp_t)), nmem[i] = m;
			if (!m) { fprintf(stderr, "class %ld without members\n", i); exit(9); }
		}
	acc = calloc(nl, 16); suf = calloc(nr, 16); acclen = malloc(nl * sizeof(int)); suflen = malloc(nr * sizeof(int));
	for (i = 0; i < nl; i++) acclen[i] = -1;
	for (i = 0; i < nr; i++) suflen[i] = -1;
	acclen[0] = suflen[0] = 0;
	for (k = 0; k < 14; k++) {
		for (i = 0; i < nl; i++) if (acclen[i] == k)
			for (j = 0; j < nc; j++) { int t = ln[i * nc + j];
				if (acclen[t] < 0) { memcpy(acc[t], acc[i], 16); acc[t][k] = j; acclen[t] = k + 1; } }
		for (i = 0; i < nr; i++) if (suflen[i] == k)
			for (j = 0; j < nc; j++) { int t = rn_[i * nc + j];
				if (suflen[t] < 0) { memcpy(suf[t] + 1, suf[i], 15); suf[t][0] = j; suflen[t] = k + 1; } }
	}
	/* states that need a class without members are dropped */
	lst = malloc(nl * sizeof(int)); rst_ = malloc(nr * sizeof(int));
	for (i = 0; i < nl; i++) if (acclen[i] >= 0) lst[nlr++] = i;
	for (i = 0; i < nr; i++) if (suflen[i] >= 0) rst_[nrr++] = i;
}
static cp_t pick(int c)
{
	/* favour the first members (the ASCII and Latin-1 ones) a little */
	return rn(6) == 0 ? mem[c][rn(nmem[c] < 4 ? nmem[c] : 4)] : mem[c][rn(nmem[c])];
}
/* the text in hand holds a NUL (1), or surrogates or values above U+10FFFF as well (2) */
static int odd;
static void spoil(void)
{
	size_t i; int k;
	odd = 0;
	if (rn(8) || !n) return;
	k = rn(3);
	for (i = 0; i < n; i++) {
		if (k < 2 && cl[i] == cls[0] && rn(2)) { txt[i] = 0; if (!odd) odd = 1; }
		else if (k && cl[i] == cls[0xD800] && rn(2)) { txt[i] = 0xD800 + rn(0x800); odd = 2; }
		else if (k && cl[i] == dflt && rn(2)) { txt[i] = rn(2) ? 0x110000 + rn(0x1000) : 0x110000 + rn(0xffef0000ul); odd = 2; }
	}
}
static size_t expect(size_t st)
{
	int l = 0; size_t j = st;
	for (;;) {
		l = ln[l * nc + cl[j]]; j++;
		if (j >= n || bk[l * nr + rst[j]]) return j;
	}
}
static void states(void)
{
	size_t i; int r = 0;
	rst[n] = 0;
	for (i = n; i-- > 0;) rst[i] = r = rn_[r * nc + cl[i]];
}
/* one text (txt, cl, n are set): variant 0 codepoints, 1 utf8, 2/3 the same NUL-terminated */
static void walk(int variant, int alloff, size_t maxsteps)
{
	size_t i, j, e, g, steps = 0, ul = 0;
	if (odd) variant &= odd == 1 ? 1 : 0;           /* no NUL-termination, no encoding */
	cur_txt = txt; cur_len = n; cur_w = 4;
	cur_fn = variant & 1 ? apis[api].nu8 : apis[api].ncp;
	cases++;
	memcpy(buf, txt, n * sizeof *txt);
	if (variant & 2) buf[n] = 0, buf[n + 1] = mem[0][0];
	else for (i = 0; i < 4; i++) buf[n + i] = mem[rn(nc)][0];
	if (variant & 1) {
		for (i = 0; i < n; i++) { u8off[i] = ul; ul += enc(buf[i], u8 + ul); }
		u8off[n] = ul;
		if (variant & 2) u8[ul] = 0, u8[ul + 1] = 'a';
		else for (i = 0; i < 3; i++) enc(mem[rn(nc)][0], u8 + ul + 4 * i);
	}
	for (i = 0; i < n; ) {
		e = expect(i); cur_arg = i; calls++;
		if (variant & 1) {
			g = apis[api].u8((char *)u8 + u8off[i], variant & 2 ? SIZE_MAX : ul - u8off[i]);
			if (g != u8off[e] - u8off[i]) { fail("break", "\"start\":%lu,\"want\":%lu,\"got\":%lu,\"nul\":%d", i, (unsigned long)(u8off[e] - u8off[i]), g, variant >> 1); return; }
		} else {
			g = apis[api].cp(buf + i, variant & 2 ? SIZE_MAX : n - i);
			if (g != e - i) { fail("break", "\"start\":%lu,\"want\":%lu,\"got\":%lu,\"nul\":%d", i, e - i, g, variant >> 1); return; }
		}
		if (!(variant & 1) && memcmp(buf, txt, n * sizeof *txt)) { fail("source modified", ""); return; }
		if (++steps >= maxsteps) return;
		i = alloff ? i + 1 : e;
	}
	(void)j;
}
/* C05: the pairwise test; how: 0 never reset, 1 reset at breaks, 2 random resets at breaks, 3 NULL */
static void pairs(int how)
{
	uint_least16_t st = 0; int l = 0; size_t i; bool g, e;
	cur_txt = txt; cur_len = n; cur_w = 4; cur_fn = "is_character_break";
	cases++;
	for (i = 0; i + 1 < n; i++) {
		l = how == 3 ? ln[cl[i]] : ln[l * nc + cl[i]];
		e = bk[l * nr + (how == 3 ? rn_[cl[i + 1]] : rst[i + 1])];
		cur_arg = i; calls++;
		g = grapheme_is_character_break(txt[i], txt[i + 1], how == 3 ? NULL : &st);
		if (g != e) { fail("pair", "\"pos\":%lu,\"want\":%d,\"got\":%d,\"how\":%d", i, e, g, how); return; }
		if (e && (how == 1 || (how == 2 && rn(2)))) st = 0;
	}
}
/* two texts with a state each, stepped alternately at random */
static void interleave(void)
{
	static cp_t t2[64]; static uint8_t c2[64]; uint_least16_t s1 = 0, s2 = 0; int l1 = 0, l2 = 0; size_t i = 0, j = 0, m = 2 + rn(20);
	for (size_t k = 0; k < m; k++) c2[k] = rn(nc), t2[k] = pick(c2[k]);
	cur_txt = txt; cur_len = n; cur_w = 4; cur_fn = "is_character_break"; cases++;
	while (i + 1 < n || j + 1 < m) {
		calls++;
		if (i + 1 < n && (j + 1 >= m || rn(2))) {
			l1 = ln[l1 * nc + cl[i]];
			bool e = bk[l1 * nr + rst[i + 1]], g = grapheme_is_character_break(txt[i], txt[i + 1], &s1);
			if (g != e) { fail("interleave", "\"pos\":%lu,\"want\":%d,\"got\":%d", i, e, g); return; }
			i++;
		} else {
			l2 = ln[l2 * nc + c2[j]];
			bool e = bk[l2 * nr + rn_[c2[j + 1]]], g = grapheme_is_character_break(t2[j], t2[j + 1], &s2);
			if (g != e) { cur_txt = t2; cur_len = m; fail("interleave", "\"pos\":%lu,\"want\":%d,\"got\":%d", j, e, g); return; }
			j++;
		}
	}
}
static int nutf8 = 8;    /* every nutf8-th text is also run through utf8 and NUL variants */
static void run(int alloff, size_t maxsteps)
{
	states();
	if (is_state) { pairs(cases % 3); if (cases % 7 == 0) interleave(); return; }
	walk(0, alloff, maxsteps);
	if (nutf8 && calls % nutf8 == 0) walk(1 + rn(3), 0, maxsteps);
}
static void settext(const uint8_t *c, size_t k, int randm)
{
	for (size_t i = 0; i < k; i++) { cl[n] = c[i]; txt[n++] = randm ? pick(c[i]) : mem[c[i]][0]; }
}
static void exhaust(int k, unsigned long shard, unsigned long ns)
{
	uint8_t d[16]; unsigned long total, x, y; int len, i;
	for (len = 1; len <= k; len++) {
		for (total = 1, i = 0; i < len; i++) total *= nc;
		for (x = shard; x < total; x += ns) {
			for (y = x, i = 0; i < len; i++, y /= nc) d[i] = y % nc;
			n = 0; settext(d, len, 1);
			run(0, ~0ul);
			if (nfail > 20) return;
		}
	}
}
/* every left state, every middle word of length k, every right state */
static void wmethod(int k, unsigned long shard, unsigned long ns)
{
	uint8_t d[8]; unsigned long total = 1, x, y; int i, l, r; unsigned long cnt = 0;
	for (i = 0; i < k; i++) total *= nc;
	for (int li = 0; li < nlr; li++) for (int ri = 0; ri < nrr; ri++) {
		l = lst[li]; r = rst_[ri];
		if (cnt++ % ns != shard) continue;
		for (x = 0; x < total; x++) {
			for (y = x, i = 0; i < k; i++, y /= nc) d[i] = y % nc;
			n = 0; settext(acc[l], acclen[l], 1); settext(d, k, 1); settext(suf[r], suflen[r], 1);
			if (!n) continue;
			run(0, ~0ul);
			if (nfail > 20) return;
		}
	}
}
static void randoms(unsigned long cnt, size_t maxlen)
{
	while (cnt--) {
		uint8_t sub[6]; int ns = 1 + rn(5), i; size_t len = 2 + rn(rn(10) == 0 ? maxlen : 14);
		for (i = 0; i < ns; i++) sub[i] = rn(nc);
		n = 0;
		if (rn(3) == 0) {
			window();
			while (n < len) { cp_t v = inwindow(); size_t rep = rn(12) == 0 ? 1 + rn(5) : 1; while (rep--) { txt[n] = v; cl[n++] = cls[v]; } }
		} else while (n < len) {
			if (rn(4) == 0) { int l = lst[rn(nlr)]; settext(acc[l], acclen[l], 1); }
			else { uint8_t c = rn(12) == 0 ? rn(nc) : sub[rn(ns)]; size_t rep = rn(8) == 0 ? 1 + rn(9) : 1; while (rep--) settext(&c, 1, 1); }
		}
		spoil();
		run(rn(3) == 0, ~0ul);
		odd = 0;
		if (nfail > 20) return;
	}
}
/* left state, one class (or a pair) repeated many times, right state */
static void pump(unsigned long cnt)
{
	static const size_t reps[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1024, 4096,
	                               32767, 32768, 65534, 65535, 65536, 65537, 70000 };
	while (cnt--) {
		int l = lst[rn(nlr)], r = rst_[rn(nrr)]; uint8_t a = rn(nc), b = rn(3) ? a : rn(nc); size_t k = reps[rn(rn(4) ? 22 : 29)], i;
		int m = rn(2);
		/* looking ahead from every position of "." followed by spaces or brackets takes quadratic time */
		if (api == 2 && k > 9000 && (a == cls[' '] || a == cls[')'] || b == cls[' '] || b == cls[')'])) k = 8192 + rn(800);
		n = 0; settext(acc[l], acclen[l], m);
		for (i = 0; i < k; i++) settext(i & 1 ? &b : &a, 1, m);
		settext(suf[r], suflen[r], m);
		states();
		if (is_state) { pairs(0); continue; }
		walk(0, 0, n > 2000 ? 12 : 100);
		if (rn(4) == 0) walk(1 + rn(3), 0, n > 2000 ? 4 : 50);
		/* and from somewhere near the end */
		if (n > 40) { size_t o = n - 1 - rn(30); memmove(txt, txt + o, (n - o) * sizeof *txt); memmove(cl, cl + o, n - o); n -= o; states(); walk(0, 0, 100); }
		if (nfail > 20) return;
	}
}
/* every codepoint in families of contexts, each of which separates all classes that can be separated */
struct ctx { int l, m, r; };
static int ctxr;                                     /* random members around the codepoint */
static void ctext(struct ctx x, int c)
{
	uint8_t k = c, m = x.m;
	n = 0; settext(acc[x.l], acclen[x.l], ctxr); settext(&k, 1, 0);
	if (x.m >= 0) settext(&m, 1, ctxr);
	settext(suf[x.r], suflen[x.r], ctxr);
}
static int refine(struct ctx x, const int *part, int *np)
{
	uint64_t key[64]; int i, j, cnt = 0;
	for (i = 0; i < nc; i++) {
		uint64_t m = 0; size_t k;
		ctext(x, i); states();
		for (k = 0; k < n; k = expect(k)) m = m * 16 + expect(k);
		key[i] = m * 64 + part[i];
		for (j = 0; j < i && key[j] != key[i]; j++);
		np[i] = j == i ? cnt++ : np[j];
	}
	return cnt;
}
static void sweep(unsigned long shard, unsigned long ns, int fams)
{
	static struct ctx cx[400], cand[6000]; int nctx = 0, f, i, j;
	uint64_t keep[2] = { rs[0], rs[1] };
	seed(keep[0] ^ 77); /* the same contexts in every shard do not matter, but keep them reproducible */
	for (f = 0; f < fams; f++) {
		int part[64] = { 0 }, np[64], bp[64], parts = 1;
		for (i = 0; i < 6000; i++) cand[i] = (struct ctx){ lst[rn(nlr)], rn(2) ? -1 : (int)rn(nc), rst_[rn(nrr)] };
		while (parts < nc && nctx < 390) {
			int best = 0, bi = 0;
			for (i = 0; i < 6000; i++) {
				j = refine(cand[i], part, np);
				if (j > best) { best = j; bi = i; memcpy(bp, np, sizeof np); }
			}
			if (best <= parts) break; /* the remaining classes cannot be told apart */
			memcpy(part, bp, sizeof bp); parts = best; cx[nctx++] = cand[bi];
		}
		printf("STAT separated_classes_%d %d\n", f, shard == 0 ? parts : 0);
	}
	printf("STAT contexts %d\n", shard == 0 ? nctx : 0);
	cp_t c;
	for (c = shard; c < 0x110000 + 4000; c += ns) {
		cp_t v = c < 0x110000 ? c : c < 0x110000 + 2000 ? c : (cp_t)rnd();
		if (v < 0x110000) { if (v != c) continue; }
		else if (c == 0x110000 + 3999) v = 0xFFFFFFFFu;
		else if (c == 0x110000 + 3998) v = 0x80000000u;
		else if (c == 0x110000 + 3997) v = 0x7FFFFFFFu;
		int k = v < 0x110000 ? cls[v] : dflt;
		for (i = 0; i < nctx; i++) {
			ctxr = rn(2); ctext(cx[i], k); txt[acclen[cx[i].l]] = v;
			cur_what = "codepoint"; 
			states();
			if (is_state) pairs(0);
			else { walk(0, 0, ~0ul);
				if (v < 0x110000 && v && !(v >= 0xD800 && v <= 0xDFFF) && (c + i) % 16 == 0) walk(1, 0, ~0ul); }
			if (nfail > 20) return;
		}
	}
}
/* codepoints an implementation might single out (small ones, ends of the ranges of every class, punctuation,
 * specials; with every = k also each k-th other one) between every left and every right state */
static int notable(cp_t v)
{
	return v < 0x250 || v == 0xD800 || v == 0xDFFF || (v >= 0x2000 && v < 0x2070) || (v >= 0x3000 && v < 0x3040) || (v >= 0xFE00 && v < 0xFE10) || (v >= 0xFF00 && v < 0xFF20) || (v & 0xFFFF) > 0xFFF0 ||
	       v == 0x10FFFF || cls[v] != cls[v - 1] || cls[v] != cls[v + 1] || (v & 0xFFF) == 0 || (v & 0xFFF) == 0xFFF || nmem[cls[v]] < 64;
}
static void notables(unsigned long every, unsigned long shard, unsigned long ns)
{
	cp_t v; unsigned long cnt = shard; int li, ri;
	for (v = 0; v < 0x110000; v++) {
		if ((v >= 0xD800 && v <= 0xDFFF && v % 0x100) || !(v == 0x10FFFF || notable(v) || (every && rn(every) == 0))) continue;
		if (cnt++ % ns) continue;
		odd = v == 0 ? 1 : v >= 0xD800 && v <= 0xDFFF ? 2 : 0;
		for (li = 0; li < nlr; li++) for (ri = 0; ri < nrr; ri++) {
			int l = lst[li], r = rst_[ri];
			ctxr = rn(2); n = 0; settext(acc[l], acclen[l], ctxr); cl[n] = cls[v]; txt[n++] = v; settext(suf[r], suflen[r], ctxr);
			states();
			if (is_state) pairs(0); else walk(rn(6) == 0 ? 1 + rn(3) : 0, 0, ~0ul);
		}
		odd = 0;
		if (nfail > 20) return;
	}
}
/* all texts of three ASCII characters, continued at random by other text */
static void ascii(unsigned long shard, unsigned long ns)
{
	unsigned long x; uint8_t c;
	for (x = shard; x < 127ul * 127 * 127; x += ns) {
		txt[0] = 1 + x % 127; txt[1] = 1 + x / 127 % 127; txt[2] = 1 + x / 127 / 127; 
		for (n = 0; n < 3; n++) cl[n] = cls[txt[n]];
		if (rn(3) == 0) { c = rn(nc); settext(&c, 1, 1); }
		states();
		if (is_state) pairs(0); else { walk(rn(2) * 2, 0, ~0ul); walk(1 + rn(2) * 2, 0, ~0ul); }
		if (nfail > 20) return;
	}
}
/* C09: any text, also not from the representative members; every offset, empty and NULL input */
static void tile(unsigned long cnt)
{
	while (cnt--) {
		size_t len = 1 + rn(rn(20) ? 40 : 2000), i;
		int mode = rn(4);
		n = 0;
		while (n < len) {
			cp_t v = mode == 0 ? rn(0x110000) : mode == 1 ? pick(rn(nc)) : mode == 2 ? 1 + rn(0x600) : pick(rn(3) ? rn(nc) : rn(2));
			int rep = rn(6) ? 1 : 1 + rn(5);
			if (v >= 0xD800 && v <= 0xDFFF) v = 0xFFFD;
			if (v == 0) v = 1;
			if (rn(8) == 0) v = rn(2) ? 13 : 10;
			while (rep--) { txt[n] = v; cl[n++] = cls[v]; }
		}
		states();
		walk(0, 1, ~0ul);           /* every offset: the result depends on what follows only */
		walk(rn(4), 0, ~0ul);       /* plain tiling */
		i = rn(n);
		/* another prefix before the same rest changes nothing */
		memmove(txt, txt + i, (n - i) * sizeof *txt); memmove(cl, cl + i, n - i); n -= i; states();
		walk(rn(2), 0, ~0ul);
		if (nfail > 20) return;
	}
	cur_len = 0; cur_txt = NULL; cur_what = "empty";
	cur_fn = apis[api].ncp;
	if (apis[api].cp(NULL, 0) || apis[api].cp(NULL, 5) || apis[api].cp(NULL, SIZE_MAX) || apis[api].cp(txt, 0)) fail("empty", "");
	txt[0] = 0; if (apis[api].cp(txt, SIZE_MAX)) fail("empty", "\"nul\":1");
	cur_fn = apis[api].nu8;
	if (apis[api].u8(NULL, 0) || apis[api].u8(NULL, 5) || apis[api].u8(NULL, SIZE_MAX) || apis[api].u8("x", 0) || apis[api].u8("", SIZE_MAX)) fail("empty", "");
	/* an incomplete sequence at the very end is no text */
	static const char *cut[] = { "\xC3", "\xE2", "\xE2\x82", "\xF0", "\xF0\x9F", "\xF0\x9F\x98", "\xDF", "\xEF\xBF", "\xF4\x8F\xBF" };
	for (size_t k = 0; k < sizeof cut / sizeof *cut; k++) {
		char b[64]; size_t m = strlen(cut[k]), a;
		calls++; cases++;
		if (apis[api].u8(cut[k], m)) fail("truncated", "\"want\":0");
		for (a = 1; a < 4; a++) {
			memcpy(b, "abc", a); memcpy(b + a, cut[k], m); cur_txt = b; cur_len = a + m; cur_w = 1;
			size_t o = 0, g; 
			while ((g = apis[api].u8(b + o, a + m - o)) > 0 && o < 64) o += g;
			if (o != a) fail("truncated", "\"want\":%lu,\"got\":%lu", a, o);
		}
	}
}
/* random texts with the library's answers, for validation by TLC */
static void record(unsigned long cnt, const char *name)
{
	while (cnt--) {
		size_t len = 1 + rn(14), i; int ns = 1 + rn(5); uint8_t sub[6];
		for (i = 0; i < (size_t)ns; i++) sub[i] = rn(nc);
		n = 0;
		while (n < len) {
			if (rn(3) == 0) { int l = lst[rn(nlr)]; settext(acc[l], acclen[l], 1); }
			else { uint8_t c = rn(6) == 0 ? rn(nc) : sub[rn(ns)]; settext(&c, 1, 1); }
		}
		cur_txt = txt; cur_len = n; cur_w = 4; cur_fn = apis[api].ncp; cases++;
		printf("SAMPLE {\"alg\":\"%s\",\"t\":", name); put_txt(txt, n, 4); printf(",\"b\":[");
		size_t o = 0, k = 0;
		while (o < n) { size_t g = apis[api].cp(txt + o, n - o); calls++; if (!g || g > n - o) { fail("progress", "\"start\":%lu,\"got\":%lu", o, g); break; } o += g; printf("%s%lu", k++ ? "," : "", o); }
		printf("]}\n");
	}
}
/* short texts, ended by two newlines, at the start of memory with more than 2^32 units (NULs follow
 * the text); lengths around 2^31, 2^32, 2^33: the breaks in front are those of the model */
static void huge(unsigned long cnt)
{
	cp_t *f4; unsigned char *f1; size_t k, h, i, e, g, L;
	fault_init(); f4 = far_(4); f1 = far_(1);
	if (!f4 || !f1) return;
	for (k = 0; k < cnt; k++) {
		size_t len = 1 + rn(12), ul = 0;
		for (n = 0; n < len;) {
			if (rn(3) == 0) { int l = lst[rn(nlr)]; settext(acc[l], acclen[l], 1); }
			else { uint8_t c = rn(nc); settext(&c, 1, 1); }
		}
		txt[n] = '\n'; cl[n++] = cls['\n']; txt[n] = '\n'; cl[n++] = cls['\n'];
		h = n;
		while (n < h + 64) txt[n] = 0, cl[n++] = cls[0];
		states();
		for (i = 0; i < h; i++) { u8off[i] = ul; ul += enc(txt[i], f1 + ul); }
		u8off[h] = ul;
		memcpy(f4, txt, h * sizeof *txt);
		cur_txt = txt; cur_len = h; cur_w = 4; cases++;
		for (i = 0; i < h; i = e) {
			e = expect(i);
			L = hugelen(rn(1000), h - i); cur_fn = apis[api].ncp; cur_arg = L; calls += 2;
			g = apis[api].cp(f4 + i, L);
			if (g != e - i) { fail("huge length", "\"start\":%lu,\"want\":%lu,\"got\":%lu", i, e - i, g); break; }
			L = hugelen(rn(1000), ul - u8off[i]); cur_fn = apis[api].nu8; cur_arg = L;
			g = apis[api].u8((char *)f1 + u8off[i], L);
			if (g != u8off[e] - u8off[i]) { fail("huge length", "\"start\":%lu,\"want\":%lu,\"got\":%lu", i, (unsigned long)(u8off[e] - u8off[i]), g); break; }
		}
		memset(f4, 0, h * sizeof *txt); memset(f1, 0, ul);
		if (nfail > 20) return;
	}
	/* one segment up to the inaccessible page */
	struct guard gg = g_new(1 << 16); volatile size_t r;
	for (k = 0; k < 6; k++) {
		static const cp_t c1[2] = { 0x301, 'a' }; size_t m = 4 + 300 * k; cp_t *p = (cp_t *)gg.hi - m, c = c1[api != 0]; unsigned char *q = gg.hi - 2 * m;
		cur_txt = p; cur_w = 4; cur_len = m; 
		for (i = 0; i < m; i++) p[i] = i ? c : 'a';
		L = hugelen(rn(1000), m); cur_fn = apis[api].ncp; cur_arg = L; calls += 2; cases++;
		if (!FAULTS(r = apis[api].cp(p, L))) fail("part of the text left out", "\"got\":%lu", r);
		for (i = 0; i < 2 * m;) i += enc(c, q + i);
		if (c != 'a') q[0] = q[1] = 'a';
		if (c != 'a') q++; 
		L = hugelen(rn(1000), 2 * m); cur_fn = apis[api].nu8; cur_arg = L; cur_txt = q; cur_len = gg.hi - q; cur_w = 1;
		if (!FAULTS(r = apis[api].u8((char *)q, L))) fail("part of the text left out", "\"got\":%lu", r);
	}
}
int main(int argc, char **argv)
{
	unsigned long arg, shard, ns;
	if (argc < 8) return 9;
	for (api = 0; api < 4; api++) if (!strncmp(apis[api].n, argv[2], strlen(apis[api].n))) break;
	if (api == 4) return 9;
	is_state = !!strstr(argv[2], "-state");
	if (strstr(argv[2], "-cp")) nutf8 = 0;
	arg = strtoul(argv[4], 0, 10); shard = strtoul(argv[5], 0, 10); ns = strtoul(argv[6], 0, 10);
	h_init(strtoul(argv[7], 0, 10) * 1000 + shard);
	txt = malloc(MAXN * sizeof *txt); buf = malloc((MAXN + 8) * sizeof *buf); cl = malloc(MAXN); rst = malloc((MAXN + 1) * sizeof *rst);
	u8 = malloc(MAXN * 4 + 64); u8off = malloc((MAXN + 1) * sizeof *u8off);
	load(argv[1]);
	cur_what = argv[3];
	if (!strcmp(argv[3], "exhaust")) exhaust(arg, shard, ns);
	else if (!strcmp(argv[3], "wmethod")) wmethod(arg, shard, ns);
	else if (!strcmp(argv[3], "random")) randoms(arg, 120);
	else if (!strcmp(argv[3], "pump")) pump(arg);
	else if (!strcmp(argv[3], "sweep")) sweep(shard, ns, arg);
	else if (!strcmp(argv[3], "notable")) { notables(arg, shard, ns); printf("STAT left_states %d\nSTAT right_states %d\n", shard ? 0 : nlr, shard ? 0 : nrr); }
	else if (!strcmp(argv[3], "ascii")) ascii(shard, ns);
	else if (!strcmp(argv[3], "tile")) tile(arg);
	else if (!strcmp(argv[3], "huge")) huge(arg);
	else if (!strcmp(argv[3], "record")) record(arg, argv[2]);
	else if (!strcmp(argv[3], "null")) {       /* pairwise test without state, all pairs of classes */
		uint8_t d[2]; int a, b, k;
		for (k = 0; k < (int)arg; k++) for (a = 0; a < nc; a++) for (b = 0; b < nc; b++) {
			d[0] = a; d[1] = b; n = 0; settext(d, 2, k > 0); states(); pairs(3); pairs(0);
		}
	}
	done();
}

/* Compares the bidirectional functions of the library with the transcription of
 * spec/Bidi.tla.  Every mismatch is reported as a complete record, which TLC
 * then judges with the specification itself; `record' emits records of ordinary
 * runs for the same purpose.
 * usage: bidi TABLEFILE MODE ARG SHARD NSHARD SEED */
#define TXTCAP 20000
#include "h.h"
#include "bidimodel.h"

#define MAXN 70000
static uint8_t cls[0x110000]; static signed char brk_[0x110000]; static cp_t mir[0x110000];
static cp_t *mem[NBC]; static size_t nmem[NBC], nplain;
static cp_t *plainon;                                    /* ON that are no brackets */
static int nk; static cp_t opn[200][4], cls_[200][4]; static int nopn[200], ncls[200];
static const cp_t rep[NBC] = { 'a', 0x5D0, 0x627, '1', '+', '#', 0x661, ',', 0x300, 0xAD, 0x2029, 9, ' ', '&',
	0x202A, 0x202D, 0x202B, 0x202E, 0x202C, 0x2066, 0x2067, 0x2068, 0x2069 };
static cp_t t[MAXN]; static size_t n;
static unsigned char c[MAXN]; static signed char b[MAXN];
static struct bm W; static signed char ll[MAXN]; static int v[MAXN];
static struct guard gS, gD, gL, gO, gN, gM;
static int shard, nshard;
#define GARB 0xA5

static int clsof(cp_t x) { return x < 0x110000 ? cls[x] : XL; }
static int codeof(cp_t x) { return x < 0x110000 ? brk_[x] : 0; }
static cp_t mirof(cp_t x) { return x < 0x110000 ? mir[x] : x; }

static void load(const char *p)
{
	FILE *f = fopen(p, "r"); long i, j, m;
	if (!f) { perror(p); exit(9); }
	m = rdint(f);
	for (i = 0; i < m; i++) { long a = rdint(f), z = rdint(f), k = rdint(f); for (j = a; j <= z; j++) cls[j] = k; }
	m = rdint(f);
	for (i = 0; i < m; i++) { long x = rdint(f), k = rdint(f); brk_[x] = k;
		if (k > 0) opn[k][nopn[k]++] = x; else cls_[-k][ncls[-k]++] = x; if (labs(k) > nk) nk = labs(k); }
	for (i = 0; i < 0x110000; i++) mir[i] = i;
	m = rdint(f);
	for (i = 0; i < m; i++) { long x = rdint(f); mir[x] = rdint(f); }
	fclose(f);
	for (int q = 0; q < 2; q++) {
		memset(nmem, 0, sizeof nmem); nplain = 0;
		for (i = 1; i < 0x110000; i++) {
			if (q) mem[cls[i]][nmem[cls[i]]] = i;
			nmem[cls[i]]++;
			if (cls[i] == XON && !brk_[i]) { if (q) plainon[nplain] = i; nplain++; }
		}
		if (!q) { for (i = 0; i < NBC; i++) mem[i] = malloc((nmem[i] + 1) * sizeof(cp_t)); plainon = malloc((nplain + 1) * sizeof(cp_t)); }
	}
}

/* one library run on the text in t, n, with the line from..from+len-1 */
static const enum grapheme_bidirectional_direction dirs[3] = {
	GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
static int dir; static size_t plen; static int pl, gpl; static size_t glen;
static cp_t *S, *D;
static void put_i8(const signed char *x, size_t m) { printf("["); for (size_t i = 0; i < m; i++) printf("%s%d", i ? "," : "", x[i]); printf("]"); }
static void put_line(size_t f, size_t m, const signed char *lev, const cp_t *out, size_t no)
{
	printf("{\"f\":%zu,\"t\":%zu,\"lev\":", f + 1, f + m); put_i8(lev, m);
	printf(",\"out\":"); put_txt(out, no, 4); printf("}");
}
/* a record that TLC judges; texts too long for that are described only */
#define JUDGED 2500
static void mismatch(const char *kind, size_t f, size_t m, const signed char *lev, const cp_t *out, size_t no, bool line)
{
	printf("FAIL {\"kind\":\"%s\",\"fn\":\"%s\",\"t\":", kind, cur_fn); put_txt(t, n <= JUDGED ? n : 40, 4);
	printf(",\"d\":%d,\"len\":%zu,\"pl\":%d", dir, glen, gpl);
	if (n <= JUDGED) { printf(",\"lines\":["); if (line) put_line(f, m, lev, out, no); printf("]"); }
	else printf(",\"n\":%zu,\"want_len\":%zu,\"want_pl\":%d,\"from\":%zu,\"chars\":%zu", n, plen, pl, f, m);
	printf("}\n"); fflush(stdout);
	if (++nfail >= 25) done();
}
static void classify(void) { for (size_t i = 0; i < n; i++) c[i] = clsof(t[i]), b[i] = codeof(t[i]); }
static int res2pl(enum grapheme_bidirectional_direction r)
{
	return r == GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR ? 0 : r == GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL ? 1 : 99;
}
/* text -> guarded source, model result and library state; false on a mismatch */
static bool prepare(int d)
{
	enum grapheme_bidirectional_direction r = 77;
	dir = d; cases++;
	bool z = !rn(4); size_t an = n;
	for (size_t i = 0; z && i < n; i++) z = t[i] != 0;
	if (z) t[n] = 0, an = SIZE_MAX;                  /* NUL-terminated: no different */
	S = g_put(&gS, t, n + z, 4); cur_txt = S; cur_len = n; cur_w = 4; cur_arg = d;
	plen = bm_p1(c, n); pl = bm_plevel(&W, c, plen, d);
	cur_fn = "grapheme_bidirectional_preprocess_paragraph"; calls++;
	D = (cp_t *)(gD.hi - plen * 4);
	memset(D, GARB, plen * 4);
	glen = grapheme_bidirectional_preprocess_paragraph(S, an, dirs[d], D, plen, &r);
	gpl = res2pl(r);
	if (glen != plen) { mismatch("length", 0, 0, 0, 0, 0, false); return false; }
	if (gpl != pl) { mismatch("direction", 0, 0, 0, 0, 0, false); return false; }
	bm_resolve(&W, c, b, plen, pl);
	return true;
}
static signed char *glev;
static bool line_levels(size_t f, size_t m)
{
	bm_line(c, W.lev, pl, f, m, ll);
	cur_fn = "grapheme_bidirectional_get_line_embedding_levels"; calls++;
	cp_t *ld = g_put(&gM, D + f, m, 4);
	glev = (signed char *)gL.hi - m;
	memset(glev, 77, m);
	size_t r = grapheme_bidirectional_get_line_embedding_levels(ld, m, (int_least8_t *)glev, m);
	if (r != m || memcmp(glev, ll, m)) { mismatch(r != m ? "line length" : "levels", f, m, glev, 0, 0, true); return false; }
	return true;
}
static bool evenmirror;
static bool line_reorder(size_t f, size_t m)
{
	bm_line(c, W.lev, pl, f, m, ll);
	size_t k = bm_reorder(ll, m, v);
	cur_fn = "grapheme_bidirectional_reorder_line"; calls++;
	cp_t *ld = g_put(&gM, D + f, m, 4), *ln = g_put(&gN, t + f, m, 4);
	cp_t *o = (cp_t *)(gO.hi - (k + 1) * 4);
	memset(o, GARB, (k + 1) * 4);
	size_t r = grapheme_bidirectional_reorder_line(ln, ld, m, o, k + 1);
	bool ok = r == k, even = false;
	for (size_t i = 0; ok && i < k; i++) {
		cp_t x = t[f + v[i]];
		if (o[i] == (ll[v[i]] % 2 ? mirof(x) : x)) continue;
		if (ll[v[i]] % 2 == 0 && o[i] == mirof(x)) { even = true; continue; }     /* L4 at an even level */
		ok = false;
	}
	if (ok && even) evenmirror = true;
	static bool once;
	if (ok && (!even || once)) return true;
	if (ok) once = true;
	if (ok) { printf("SAMPLE {\"known\":\"mirror\",\"t\":"); put_txt(t, n, 4); printf(",\"d\":%d,\"len\":%zu,\"pl\":%d,\"lines\":[", dir, glen, gpl);
		put_line(f, m, ll, o, k); printf("]}\n"); return true; }
	mismatch("order", f, m, ll, o, r < k + 1 ? r : k, true);
	return false;
}

/* ------------------------------------------------------------ generators */
static cp_t pick(int k)
{
	if (k == XON && rn(2)) return rn(3) ? '&' : plainon[rn(nplain)];
	return rn(3) ? rep[k] : mem[k][rn(nmem[k])];
}
static bool highs;                                  /* values beyond 10FFFF */
static cp_t bopen(int k) { return opn[k][rn(nopn[k])]; }
static cp_t bclose(int k) { return cls_[k][rn(ncls[k])]; }
static void add(cp_t x) { if (n < MAXN - 1) t[n++] = x; }
static void addc(int k) { if (k == XL && highs && !rn(30)) add(rn(2) ? 0x110000 + rn(0x90000) : (cp_t)rnd() | 0x80000000u); else add(pick(k)); }
static int from(const char *set)                    /* one of the letters of a weighted alphabet */
{
	return set[rn(strlen(set))];
}
/* letters: l r a strong, 1 EN + ES # ET 2 AN , CS n NSM b BN s S w WS o ON, ( ) brackets,
 * E embedding F override I isolate f FSI . PDF ; PDI */
static int kinds[4], nkinds;
static void addl(int x)
{
	switch (x) {
	case 'l': addc(XL); break; case 'r': addc(XR); break; case 'a': addc(XAL); break;
	case '1': addc(XEN); break; case '+': addc(XES); break; case '#': addc(XET); break;
	case '2': addc(XAN); break; case ',': addc(XCS); break; case 'n': addc(XNSM); break;
	case 'b': addc(XBN); break; case 's': addc(XS); break; case 'w': addc(XWS); break; case 'o': addc(XON); break;
	case '(': add(bopen(kinds[rn(nkinds)])); break; case ')': add(bclose(kinds[rn(nkinds)])); break;
	case 'E': add(rn(2) ? rep[XLRE] : rep[XRLE]); break; case 'F': add(rn(2) ? rep[XLRO] : rep[XRLO]); break;
	case 'I': add(rn(2) ? rep[XLRI] : rep[XRLI]); break; case 'f': add(rep[XFSI]); break;
	case '.': add(rep[XPDF]); break; case ';': add(rep[XPDI]); break;
	}
}
static const char *const alph[] = {
	"lraowEEFFIIf..;;",                              /* 0 explicit */
	"lra1+#2,no1+#2,nwsb",                           /* 1 weak */
	"lrao1n(((())))",                                /* 2 brackets */
	"lra1+#2,nbswo()EFIf.;",                         /* 3 mixed */
	"lrnwso1#bEFI.;",                                /* 4 */
	"wwsI;b.llrE",                                   /* 5 blanks */
	"lra1#n(()EI.;o",                                /* 6 */
};
static void gen(int profile, size_t maxlen)
{
	n = 0;
	nkinds = 1 + rn(3);
	for (int i = 0; i < nkinds; i++) kinds[i] = 1 + rn(nk);
	if (profile < 7 && rn(6) == 0) {
		size_t m = 1 + rn(rn(10) ? (maxlen < 40 ? maxlen : 40) : maxlen);
		window();
		while (n < m) if (rn(4)) add(inwindow()); else addl(from(alph[profile]));
	} else if (profile < 7) {
		size_t m = 1 + rn(rn(10) ? (maxlen < 40 ? maxlen : 40) : maxlen);
		bool runs = !rn(6);
		while (n < m) {
			int x = from(alph[profile]), k = runs && !rn(3) ? 1 + rn(40) : 1;
			while (k-- && n < m) addl(x);
		}
	} else if (profile == 7) {                       /* deep nesting around the limit */
		static const char *const op[] = { "E", "I", "EF", "EI", "EFIf", "f", "fI" };
		const char *o = op[rn(7)]; int k = rn(4) ? 50 + rn(100) : 120 + rn(20), same = rn(3);
		int one = from(o); cp_t fixed = one == 'E' ? (rn(2) ? rep[XLRE] : rep[XRLE]) : rn(2) ? rep[XLRI] : rep[XRLI];
		for (int i = 0; i < k; i++) {
			if (same == 0) add(fixed); else addl(from(o));
			if (!rn(5)) addl(from(alph[6]));
		}
		for (int i = rn(30); i-- > 0;) addl(from(alph[rn(2) ? 3 : 0]));
		for (int i = rn(2) ? k : rn(k + 20); i-- > 0;) {
			addl(rn(3) ? rn(2) ? ';' : '.' : rn(2) ? from(o) : ';');
			if (!rn(4)) addl(from(alph[3]));
		}
	} else if (profile == 8) {                       /* bracket stack around its limit */
		int k = rn(5) ? 55 + rn(20) : rn(200), d = 0; int open = 0;
		for (int i = 0; i < k + 60 + (int)rn(80) && n < 600; i++) {
			if (open < k && rn(8)) { addl('('); open++; d++; }
			else if (rn(3)) { addl(')'); if (d) d--; }
			else addl(from("lra1nolr"));
			if (!rn(60)) addl('I'); if (!rn(60)) addl(';');
		}
	} else if (profile == 9) {                       /* isolates nested deeper than any limit, little else */
		int k = 100 + rn(300);
		for (int i = 0; i < k; i++) { addl(rn(8) ? 'I' : 'f'); if (!rn(40)) addl(from("lrao")); }
		for (int i = rn(k + 40); i-- > 0;) addl(';');
		for (int i = rn(6); i-- > 0;) addl(from("lrao1;I"));
	}
	classify();
}

/* ------------------------------------------------------------ modes */
static bool agrees(int d)                            /* without a report */
{
	enum grapheme_bidirectional_direction r;
	classify(); cases++;
	plen = bm_p1(c, n); pl = bm_plevel(&W, c, plen, d);
	bm_resolve(&W, c, b, plen, pl); bm_line(c, W.lev, pl, 0, plen, ll);
	S = g_put(&gS, t, n, 4); D = (cp_t *)(gD.hi - plen * 4); glev = (signed char *)gL.hi - plen;
	grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], D, plen, &r);
	return grapheme_bidirectional_get_line_embedding_levels(D, plen, (int_least8_t *)glev, plen) == plen && !memcmp(glev, ll, plen);
}
static void whole(void)
{
	for (int d = 0; d < 3; d++) {
		if (!prepare(d)) continue;
		bm_line(c, W.lev, pl, 0, plen, ll); glev = (signed char *)gL.hi - plen; memset(glev, 77, plen);
		cur_fn = "grapheme_bidirectional_get_line_embedding_levels"; calls++;
		if (grapheme_bidirectional_get_line_embedding_levels(D, plen, (int_least8_t *)glev, plen) == plen && !memcmp(glev, ll, plen)) continue;
		/* shorten the text while it still shows a difference */
		static cp_t keep[MAXN]; size_t m = n; bool less = true;
		memcpy(keep, t, n * sizeof *t);
		for (size_t w = m / 2 + 1, budget = 400000000 / (m + 1) / (m > 1000 ? 20 : 1); less || w > 1;) {
			less = false; w = w > 1 ? w / 2 : 1;
			for (size_t i = 0; i + w <= m;) {
				if (!budget--) { less = false; w = 1; break; }
				n = m - w; memcpy(t, keep, i * sizeof *t); memcpy(t + i, keep + i + w, (n - i) * sizeof *t);
				if (n && !agrees(d)) { m = n; memcpy(keep, t, n * sizeof *t); less = true; } else i++;
			}
		}
		n = m; memcpy(t, keep, n * sizeof *t); classify();
		if (prepare(d)) line_levels(0, plen);
		return;
	}
}
static void lines(bool lev, bool ord)
{
	for (int d = 0; d < 3; d++) {
		if (!prepare(d)) continue;
		if (plen <= 12)
			for (size_t f = 0; f < plen; f++) for (size_t m = 0; f + m <= plen; m++)
				{ if (lev && !line_levels(f, m)) return; if (ord && !line_reorder(f, m)) return; }
		else for (int k = 0; k < 8; k++) {
			size_t f = k ? rn(plen) : 0, m = k ? rn(plen - f + 1) : plen;
			if (lev && !line_levels(f, m)) return;
			if (ord && !line_reorder(f, m)) return;
		}
	}
}
static void tiles(void)
{
	/* several paragraphs one after the other; with and without a buffer */
	static cp_t all[MAXN]; size_t m = n, off = 0;
	memcpy(all, t, n * sizeof *t);
	for (int d = 0; d < 3; d++) for (off = 0; off < m;) {
		n = m - off; memcpy(t, all + off, n * sizeof *t); classify();
		if (!prepare(d)) return;
		enum grapheme_bidirectional_direction r = 77; size_t l0 = glen; int p0 = gpl;
		glen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], NULL, 0, &r); gpl = res2pl(r);
		if (glen != plen || gpl != pl) { mismatch(glen != plen ? "length" : "direction", 0, 0, 0, 0, 0, false); return; }
		r = 77; glen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], NULL, rn(1000), &r); gpl = res2pl(r);
		if (glen != plen || gpl != pl) { mismatch(glen != plen ? "length" : "direction", 0, 0, 0, 0, 0, false); return; }
		glen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], rn(2) ? D : NULL, plen, NULL);
		if (glen != plen) { mismatch("length", 0, 0, 0, 0, 0, false); return; }
		if (memchr(c, XB, n) == NULL || rn(4) == 0) {      /* NUL-terminated: the same for texts without NUL */
			bool nul = false; for (size_t i = 0; i < n; i++) nul |= t[i] == 0;
			if (!nul) {
				t[n] = 0; cp_t *z = g_put(&gS, t, n + 1, 4); r = 77;
				glen = grapheme_bidirectional_preprocess_paragraph(z, SIZE_MAX, dirs[d], NULL, 0, &r); gpl = res2pl(r);
				if (glen != plen || gpl != pl) { mismatch(glen != plen ? "length" : "direction", 0, 0, 0, 0, 0, false); return; }
			}
		}
		glen = l0; gpl = p0;
		off += plen;
	}
}
static void buffers(void)
{
	for (int d = 0; d < 3; d++) {
		if (!prepare(d)) continue;
		/* preprocess with every kind of buffer length */
		for (int k = 0; k < 6; k++) {
			size_t dl = k == 0 ? 0 : k == 1 ? plen + 1 + rn(8) : rn(plen + 1);
			cp_t *x = (cp_t *)(gL.hi - dl * 4); enum grapheme_bidirectional_direction r = 77;
			memset(gL.lo, GARB, gL.hi - gL.lo);
			cur_fn = "grapheme_bidirectional_preprocess_paragraph"; cur_arg = dl; calls++;
			glen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], x, dl, &r); gpl = res2pl(r);
			if (glen != plen || gpl != pl) { mismatch(glen != plen ? "length" : "direction", 0, 0, 0, 0, 0, false); return; }
			for (unsigned char *q = gL.lo; q < (unsigned char *)x; q++) if (*q != GARB) { fail("write before the buffer", "\"d\":%d", d); return; }
			if (dl > plen) for (unsigned char *q = (unsigned char *)(x + plen); q < gL.hi; q++) if (*q != GARB) { fail("write behind the paragraph", "\"d\":%d", d); return; }
			if (memcmp(S, t, n * 4)) { fail("source modified", "\"d\":%d", d); return; }
			if (dl >= plen) {         /* the same state in whatever buffer */
				bm_line(c, W.lev, pl, 0, plen, ll);
				glev = (signed char *)gO.hi - plen;
				size_t r2 = grapheme_bidirectional_get_line_embedding_levels(x, plen, (int_least8_t *)glev, plen);
				if (r2 != plen || memcmp(glev, ll, plen)) { mismatch("levels", 0, plen, glev, 0, 0, true); return; }
			}
		}
		/* lines */
		for (int k = 0; k < 6; k++) {
			size_t f = k ? rn(plen) : 0, m = k ? rn(plen - f + 1) : plen;
			cp_t *ld = g_put(&gM, D + f, m, 4), *ln = g_put(&gN, t + f, m, 4);
			bm_line(c, W.lev, pl, f, m, ll);
			for (int q = 0; q < 4; q++) {
				size_t dl = q == 0 ? 0 : q == 1 ? m + 1 + rn(8) : rn(m + 1);
				glev = (signed char *)gL.hi - dl; memset(gL.lo, GARB, gL.hi - gL.lo);
				cur_fn = "grapheme_bidirectional_get_line_embedding_levels"; cur_txt = ld; cur_len = m; cur_arg = dl; calls++;
				size_t r = grapheme_bidirectional_get_line_embedding_levels(ld, m, dl || rn(2) ? (int_least8_t *)glev : NULL, dl);
				if (r != m) { fail("wrong count", "\"got\":%zu", r); return; }
				for (unsigned char *z = gL.lo; z < (unsigned char *)glev; z++) if (*z != GARB) { fail("write before the buffer", ""); return; }
				for (size_t i = m; i < dl; i++) if ((unsigned char)glev[i] != GARB) { fail("write behind the line", ""); return; }
				for (size_t i = 0; i < m && i < dl; i++) if (glev[i] != ll[i]) { fail("wrong level in a short buffer", "\"d\":%d,\"at\":%zu,\"got\":%d,\"want\":%d,\"levels_of\":[%zu,%zu]", d, i, glev[i], ll[i], f, m); return; }
				if (memcmp(ld, D + f, m * 4)) { fail("line data modified", ""); return; }
			}
			int kc = bm_reorder(ll, m, v);
			for (int q = 0; q < 5; q++) {
				size_t dl = q == 0 ? 0 : q == 1 ? (size_t)kc + 1 + rn(8) : q == 2 ? (size_t)kc : rn(kc + 1);
				cp_t *o = (cp_t *)(gO.hi - dl * 4); memset(gO.lo, GARB, gO.hi - gO.lo);
				cur_fn = "grapheme_bidirectional_reorder_line"; cur_txt = ln; cur_len = m; cur_arg = dl; calls++;
				size_t r = grapheme_bidirectional_reorder_line(ln, ld, m, dl || rn(2) ? o : NULL, dl);
				if (r != (size_t)kc) { fail("wrong count", "\"got\":%zu,\"want\":%d", r, kc); return; }
				for (unsigned char *z = gO.lo; z < (unsigned char *)o; z++) if (*z != GARB) { fail("write before the buffer", ""); return; }
				if (dl > (size_t)kc) for (unsigned char *z = (unsigned char *)(o + m > (cp_t *)gO.hi ? (cp_t *)gO.hi : o + m); z < gO.hi; z++) if (*z != GARB) { fail("write behind the line", ""); return; }
				if (dl < (size_t)kc) for (size_t i = 0; i < dl; i++) if (o[i] != 0xFFFD) { fail("short output not filled", "\"got\":%lu", (unsigned long)o[i]); return; }
				if (dl >= (size_t)kc) for (int i = 0; i < kc; i++) {
					cp_t x = t[f + v[i]];
					if (o[i] != x && o[i] != mirof(x)) { fail("wrong output for this size", "\"at\":%d,\"got\":%lu,\"want\":%lu", i, (unsigned long)o[i], (unsigned long)x); return; }
				}
				if (memcmp(ld, D + f, m * 4) || memcmp(ln, t + f, m * 4)) { fail("line modified", ""); return; }
			}
		}
	}
}
static void record(void)
{
	for (int d = 0; d < 3; d++) {
		enum grapheme_bidirectional_direction r = 77; static signed char lv[MAXN]; static cp_t o[MAXN + 1];
		dir = d; S = g_put(&gS, t, n, 4); cur_txt = S; cur_len = n; cur_w = 4; cases++; calls++;
		size_t p = bm_p1(c, n); D = (cp_t *)(gD.hi - p * 4); memset(D, GARB, p * 4);
		glen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], D, p, &r); gpl = res2pl(r);
		printf("SAMPLE {\"t\":"); put_txt(t, n, 4); printf(",\"d\":%d,\"len\":%zu,\"pl\":%d,\"lines\":[", d, glen, gpl);
		for (int k = 0; glen == p && k < 3; k++) {
			size_t f = k ? rn(p) : 0, m = k ? 1 + rn(p - f) : p; size_t q;
			if (grapheme_bidirectional_get_line_embedding_levels(D + f, m, (int_least8_t *)lv, m) != m) m = 0;
			q = grapheme_bidirectional_reorder_line(t + f, D + f, m, o, m + 1);
			if (k) printf(",");
			put_line(f, m, lv, o, q);
		}
		printf("]}\n");
	}
}
/* long repetitions: prefix, k times the same, suffix */
static cp_t pp[3][16]; static size_t np_[3];
static void pumped(size_t k)
{
	n = 0;
	for (size_t i = 0; i < np_[0]; i++) add(pp[0][i]);
	while (k-- > 0) for (size_t i = 0; i < np_[1]; i++) add(pp[1][i]);
	for (size_t i = 0; i < np_[2]; i++) add(pp[2][i]);
	classify();
}
static void buffers(void), tiles(void);
static void record(void);
static void pump(char what)
{
	static const size_t at[] = { 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2048, 4096, 16384, 32767, 32768, 65535, 65536, 69000 };
	static const char *const A[] = { "lrla1+#2,nbswoEIf.;()", "lraoI;", "lra1+#2,n", "lrwsbI;1", "lr(o)n1" };
	const char *a = A[rn(5)]; size_t k, f0 = nfail; bool linear = true;
	nkinds = 1; kinds[0] = 1 + rn(nk);
	for (int q = 0; q < 3; q++) {
		size_t m = q == 1 ? 1 + rn(rn(3) + 1) : rn(9); n = 0;
		for (size_t i = 0; i < m; i++) {
			addl(from(a));
			if (q == 1) { int x = clsof(t[n - 1]); linear = linear && (x == XL || x == XR || x == XAL) && (i == 0 || clsof(t[0]) == x); }
		}
		memcpy(pp[q], t, n * sizeof *t); np_[q] = n;
	}
	k = at[what == 'r' ? rn(11) : rn(linear ? 19 : rn(6) ? 10 : 13)] + rn(6) - 3;
	k = k > np_[0] + np_[2] ? (k - (rn(2) ? np_[0] + np_[2] : 0)) / np_[1] + rn(2) : 1;
	pumped(k);
	if (what == 'p') tiles();
	else if (what == 'r') record();
	else if (what == 'l') whole();
	else if (what == 'b') buffers();
	else lines(what == 'L', what == 'O');
	if (nfail > (int)f0 && n > 300) {                 /* and with fewer */
		for (size_t i = 0; i < 13 && at[i] < k; i++) {
			f0 = nfail; pumped(at[i] + 3);
			if (what == 'p') tiles(); else if (what == 'l') whole(); else if (what == 'b') buffers(); else lines(what == 'L', what == 'O');
			if (nfail > (int)f0) break;
		}
	}
}
/* every codepoint within random texts; all texts of three ASCII characters, some with text behind */
static void run(int what)
{
	if (what == 'p') tiles(); else if (what == 'l') whole(); else if (what == 'b') buffers(); else lines(what == 'L', what == 'O');
}
static void embedded(int what, long cnt)
{
	static cp_t a[16]; size_t l, m;
	while (cnt-- > 0) for (cp_t x = 1 + shard; x < 0x110000 && nfail < 20; x += nshard) {
		if (what == 'b' && rn(30)) continue;          /* expensive */
		gen(rn(7), 6); l = rn((n < 6 ? n : 6) + 1); memcpy(a, t, l * sizeof *a);
		gen(rn(7), 6); m = rn((n < 6 ? n : 6) + 1); memmove(t + l + 1, t, m * sizeof *t); memcpy(t, a, l * sizeof *t);
		t[l] = x; n = l + 1 + m; classify(); run(what);
	}
}
static void ascii(int what)
{
	for (long x = shard; x < 128L * 128 * 128 && nfail < 20; x += nshard) {
		if (what == 'b' && rn(60)) continue;
		n = 0;
		if (rn(3)) { gen(rn(7), 5); n = rn((n < 5 ? n : 5) + 1); memmove(t + 3, t, n * sizeof *t); }
		t[0] = x % 128; t[1] = x / 128 % 128; t[2] = x / 128 / 128; n += 3; classify(); run(what);
	}
}
/* every codepoint (and values beyond) in contexts that separate the classes */
static cp_t ctx[64][12]; static int nctx, lctx[64], hole[64];
static void mkctx(void)
{
	/* contexts over representatives, greedily chosen until all classes differ */
	int sig[NBC]; memset(sig, 0, sizeof sig); int groups = 1;
	static signed char o1[NBC][12];
	for (int tries = 0; tries < 400000 && groups < NBC && nctx < 60; tries++) {
		int m = 3 + rn(6), h = rn(m); unsigned char cc[12]; signed char bb[12] = { 0 }, l1[12];
		for (int i = 0; i < m; i++) cc[i] = rn(NBC), cc[i] = cc[i] == XB ? XL : cc[i];
		int ns[NBC], ng = 0;
		for (int k = 0; k < NBC; k++) {
			if (k == XB) { memset(o1[k], 99, 12); o1[k][0] = h + 1; }
			else { cc[h] = k; int p = bm_plevel(&W, cc, m, 0); bm_resolve(&W, cc, bb, m, p); bm_line(cc, W.lev, p, 0, m, l1);
			memset(o1[k], 0, 12); memcpy(o1[k], l1, m); o1[k][11] = p; }
			ns[k] = -1;
			for (int j = 0; j < k; j++) if (sig[j] == sig[k] && !memcmp(o1[j], o1[k], 12)) { ns[k] = ns[j]; break; }
			if (ns[k] < 0) ns[k] = ng++;
		}
		if (ng > groups) {
			groups = ng; memcpy(sig, ns, sizeof sig);
			for (int i = 0; i < m; i++) ctx[nctx][i] = rep[cc[i]];
			lctx[nctx] = m; hole[nctx] = h; nctx++;
		}
	}
	if (groups < NBC) { fprintf(stderr, "contexts do not separate all classes\n"); exit(9); }
}
static void atctx(cp_t x)
{
	for (int k = 0; k < nctx; k++) {
		n = lctx[k]; memcpy(t, ctx[k], n * sizeof *t); t[hole[k]] = x; classify();
		if (prepare(0)) line_levels(0, plen);
	}
}
/* does x pair with y?  a ( R x ... : levels differ when the brackets pair up */
static void pairctx(cp_t x, cp_t y)
{
	/* L-context, RTL paragraph: "a x b y 5D0" */
	cp_t z[] = { 'a', x, 'b', y, 0x5D0 };
	n = 5; memcpy(t, z, sizeof z); classify();
	if (prepare(2)) line_levels(0, plen);
}
static void mirctx(cp_t x)
{
	cp_t z[] = { 0x5D0, x, 0x5D1 }, y[] = { rep[XRLO], x, rep[XPDF], 'a' };
	n = 3; memcpy(t, z, sizeof z); classify();
	if (prepare(0)) line_reorder(0, plen);
	n = 4; memcpy(t, y, sizeof y); classify();
	if (prepare(1)) line_reorder(0, plen);
}

/* lengths around 2^31, 2^32, 2^33: of the text behind the paragraph, of texts and lines running into the
 * inaccessible page, and of the three kinds of buffers */
static void huge(long cnt)
{
	cp_t *f4; signed char *f1; size_t L, i; enum grapheme_bidirectional_direction r; volatile size_t g;
	fault_init(); f4 = far_(4); f1 = far_(1);
	while (cnt-- > 0 && f4 && f1) {
		gen(rn(7), 12); if (n > 60) n = 60, classify();
		int d = rn(3); if (!prepare(d)) return;
		/* buffers */
		L = hugelen(rn(1000), plen + 1); r = 77; memset(f4, GARB, plen * 4 + 16);
		cur_fn = "grapheme_bidirectional_preprocess_paragraph"; cur_what = "huge buffer"; cur_arg = L; calls += 3;
		glen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], f4, L, &r); gpl = res2pl(r);
		if (glen != plen || gpl != pl) mismatch(glen != plen ? "length" : "direction", 0, 0, 0, 0, 0, false);
		else if (memcmp(f4, D, plen * 4)) {    /* bits nobody looks at may differ: ask the line functions */
			bm_line(c, W.lev, pl, 0, plen, ll); glev = (signed char *)gO.hi - plen;
			size_t r2 = grapheme_bidirectional_get_line_embedding_levels(f4, plen, (int_least8_t *)glev, plen);
			if (r2 != plen || memcmp(glev, ll, plen)) mismatch("levels", 0, plen, glev, 0, 0, true);
		}
		memset(f4, 0, plen * 4 + 16);
		size_t f = rn(2) ? 0 : rn(plen), m = rn(2) ? plen - f : rn(plen - f + 1);
		cp_t *ld = g_put(&gM, D + f, m, 4), *ln = g_put(&gN, t + f, m, 4);
		bm_line(c, W.lev, pl, f, m, ll); size_t k = bm_reorder(ll, m, v);
		L = hugelen(rn(1000), m + 1); memset(f1, 77, m + 1);
		cur_fn = "grapheme_bidirectional_get_line_embedding_levels"; cur_arg = L; cur_txt = ld; cur_len = m;
		size_t q = grapheme_bidirectional_get_line_embedding_levels(ld, m, (int_least8_t *)f1, L);
		if (q != m || memcmp(f1, ll, m)) fail("huge buffer", "\"d\":%d,\"got\":%zu", d, q);
		L = hugelen(rn(1000), k + 1); memset(f4, GARB, m * 4 + 4);
		cur_fn = "grapheme_bidirectional_reorder_line"; cur_arg = L; cur_txt = ln;
		q = grapheme_bidirectional_reorder_line(ln, ld, m, f4, L);
		for (i = 0; q == k && i < k; i++) { cp_t x = t[f + v[i]]; if (f4[i] != x && f4[i] != mirof(x)) q = ~0ul; }
		if (q != k) fail("huge buffer", "\"d\":%d,\"got\":%zu,\"want\":%zu", d, q, k);
		memset(f4, 0, m * 4 + 4);
		/* more text behind the paragraph */
		if (plen < n || clsof(t[plen - 1]) == XB) {
			memcpy(f4, t, plen * 4); L = hugelen(rn(1000), plen + 1); r = 77;
			cur_fn = "grapheme_bidirectional_preprocess_paragraph"; cur_what = "huge text"; cur_arg = L; cur_txt = S; cur_len = plen;
			memset(D, GARB, plen * 4);
			glen = grapheme_bidirectional_preprocess_paragraph(f4, L, dirs[d], D, plen, &r); gpl = res2pl(r);
			if (glen != plen || gpl != pl) fail("huge text", "\"d\":%d,\"got\":%zu,\"want\":%zu,\"gotlevel\":%d", d, glen, plen, gpl);
			memset(f4, 0, plen * 4);
		}
		if (nfail > 20) return;
	}
	for (i = 0; i < 60; i++) {
		size_t m = 1 + rn(rn(2) ? 10 : 2000), j, dl = rn(3) ? rn(20) : 0; cp_t *o = dl || rn(2) ? (cp_t *)(gO.hi - dl * 4) : NULL;
		for (j = 0; j < m; j++) t[j] = 'a';
		n = m; classify(); if (!prepare(1)) return;
		cur_what = "huge length"; cases++; calls += 3;
		L = hugelen(rn(1000), m); cur_arg = L; cur_fn = "grapheme_bidirectional_preprocess_paragraph";
		if (!FAULTS(g = grapheme_bidirectional_preprocess_paragraph(S, L, dirs[rn(3)], o, dl, rn(2) ? &r : NULL))) fail("part of the text left out", "\"got\":%lu", g);
		cp_t *ld = g_put(&gM, D, m, 4), *ln = g_put(&gN, t, m, 4);
		L = hugelen(rn(1000), m); cur_arg = L; cur_fn = "grapheme_bidirectional_get_line_embedding_levels";
		if (!FAULTS(g = grapheme_bidirectional_get_line_embedding_levels(ld, L, (int_least8_t *)o, dl)) && g != L) fail("part of the line left out", "\"got\":%lu", g);
		cur_fn = "grapheme_bidirectional_reorder_line";
		if (!FAULTS(g = grapheme_bidirectional_reorder_line(ln, ld, L, o, dl))) fail("part of the line left out", "\"got\":%lu", g);
		if (nfail > 20) return;
	}
}
int main(int argc, char **argv)
{
	if (argc < 7) return 9;
	const char *mode = argv[2]; long arg = atol(argv[3]); shard = atoi(argv[4]); nshard = atoi(argv[5]);
	h_init(strtoul(argv[6], 0, 10) * 1000003 + shard * 7919 + (mode[0] << 8) + strlen(mode));
	load(argv[1]);
	size_t big = (!strncmp(mode, "pump", 4) ? MAXN + 16 : !strncmp(mode, "embedded", 8) || !strncmp(mode, "ascii", 5) ? 64 : 16384) * 4;
	gS = g_new(MAXN * 4 + 8); gD = g_new(MAXN * 4); gL = g_new(big); gO = g_new(big); gN = g_new(MAXN * 4); gM = g_new(MAXN * 4);
	bm_need(&W, MAXN); cur_what = mode;
	if (!strncmp(mode, "pump-", 5)) {
		for (long i = shard; i < arg && nfail < 4; i += nshard) pump(mode[5]);
	} else if (!strncmp(mode, "embedded-", 9)) embedded(mode[9], arg);
	else if (!strncmp(mode, "ascii-", 6)) ascii(mode[6]);
	else if (!strcmp(mode, "para")) {
		for (long i = shard; i < arg; i += nshard) {
			highs = true;
			int p = rn(8); gen(p < 5 ? (int)rn(7) : p == 5 ? 9 : p == 6 ? 7 : 0, 60);
			if (n > 2000) n = 2000;
			for (size_t k = rn(3); k-- > 0 && n;) t[rn(n)] = mem[XB][rn(nmem[XB])];
			for (size_t j = 0; j < n && !rn(3); j++) if (clsof(t[j]) < 3 && rn(3)) t[j] = rep[XON];
			classify(); tiles();
		}
	} else if (!strcmp(mode, "explicit") || !strcmp(mode, "weak") || !strcmp(mode, "any")) {
		static const int pe[] = { 0, 0, 4, 6, 7, 7, 9, 3 }, pw[] = { 1, 1, 2, 2, 3, 6, 8, 8 }, pa[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
		highs = true;
		for (long i = shard; i < arg; i += nshard) {
			gen(*mode == 'e' ? pe[rn(8)] : *mode == 'w' ? pw[rn(8)] : pa[rn(9)], rn(50) ? 80 : 600);
			whole();
		}
	} else if (!strcmp(mode, "lines") || !strcmp(mode, "reorder")) {
		for (long i = shard; i < arg; i += nshard) {
			static const int pa[] = { 5, 5, 5, 3, 3, 4, 0, 6, 2, 7 };
			gen(pa[rn(10)], rn(50) ? 60 : 500);
			if (!rn(5)) { add(mem[XB][rn(nmem[XB])]); classify(); }
			lines(*mode == 'l', *mode == 'r');
		}
	} else if (!strcmp(mode, "buffers")) {
		for (long i = shard; i < arg; i += nshard) {
			gen(rn(10) ? (int)rn(7) : 7 + rn(3), 60);
			if (!rn(5)) { t[rn(n)] = mem[XB][rn(nmem[XB])]; classify(); }
			buffers();
		}
		n = 0; dir = 0;               /* empty and NULL arguments */
		cur_fn = "empty"; cur_txt = 0; cur_len = 0;
		enum grapheme_bidirectional_direction r = 77; cp_t one = 5; int_least8_t l1;
		if (grapheme_bidirectional_preprocess_paragraph(NULL, 0, dirs[0], NULL, 0, &r) != 0 || r != dirs[1]) fail("empty text", "");
		if (grapheme_bidirectional_preprocess_paragraph(&one, 0, dirs[2], &one, 1, &r) != 0 || r != dirs[2] || one != 5) fail("empty text", "");
		if (grapheme_bidirectional_get_line_embedding_levels(&one, 0, &l1, 1) != 0) fail("empty line", "");
		if (grapheme_bidirectional_get_line_embedding_levels(NULL, 0, NULL, 0) != 0) fail("empty line", "");
		if (grapheme_bidirectional_reorder_line(NULL, NULL, 0, NULL, 0) != 0) fail("empty line", "");
		if (grapheme_bidirectional_reorder_line(&one, &one, 0, &one, 1) != 0 || one != 5) fail("empty line", "");
	} else if (!strncmp(mode, "exhaust-", 8)) {
		/* all texts of length 1..arg over an alphabet of letters of alph */
		static const char *const ab[] = { "lrwEeFGIif.;", "lra1+#2,no()", "lrwsb;IEon", "lr(){}no;I" };
		const char *A = ab[mode[8] - '0']; size_t na = strlen(A); int what = mode[9];   /* l: levels, L: lines, O: order */
		for (long m = 1; m <= arg; m++) {
			uint64_t tot = 1; for (long i = 0; i < m; i++) tot *= na;
			for (uint64_t q = shard; q < tot; q += nshard) {
				uint64_t x = q; n = m;
				for (long i = 0; i < m; i++, x /= na) {
					static const char L[] = "lra1+#2,nbswoEeFGIif.;(){}";
					static const cp_t C[] = { 'a', 0x5D0, 0x627, '1', '+', '#', 0x661, ',', 0x300, 0xAD, 9, ' ', '&', 0x202B, 0x202A, 0x202E, 0x202D, 0x2067, 0x2066, 0x2068, 0x202C, 0x2069, '(', ')', '[', ']' };
					t[i] = C[strchr(L, A[x % na]) - L];
				}
				classify();
				if (what == 'L') lines(true, false); else if (what == 'O') lines(false, true); else whole();
			}
		}
	} else if (!strcmp(mode, "contexts")) {
		mkctx();
		for (int k = 0; k < nctx; k++) {
			printf("SAMPLE {\"c\":[");
			for (int i = 0; i < lctx[k]; i++) printf("%s%d", i ? "," : "", clsof(ctx[k][i]));
			printf("],\"h\":%d}\n", hole[k] + 1);
		}
	} else if (!strcmp(mode, "sweep")) {
		mkctx();
		for (cp_t x = shard; x < 0x110100; x += nshard) {
			if (x) atctx(x);
			if (x && clsof(x) != XB) mirctx(x);
			static const cp_t more[] = { '(', ')', '[', ']', 0x2329, 0x3009, 0x232A, 0x27E8 };
			if (x && clsof(x) != XB) for (int k = 0; k < 8; k++) { pairctx(more[k], x); pairctx(x, more[k]); }
		}
		for (cp_t x = 0xFFFFFFFFu - shard; x > 0xFFFFF000u; x -= nshard) atctx(x);
		for (int k = 0; k < 4000; k++) atctx(0x110000 + (cp_t)(rnd() % 0xFFEF0000u));
	} else if (!strcmp(mode, "pairs")) {
		/* every bracket against every bracket, and every ON against every kind */
		static cp_t all[600]; int m = 0;
		for (cp_t x = 1; x < 0x110000; x++) if (brk_[x]) all[m++] = x;
		for (int i = 0; i < m; i++) for (int j = shard; j < m; j += nshard) pairctx(all[i], all[j]);
		if (arg) for (size_t i = shard; i < nplain; i += nshard)
			for (int j = 0; j < m; j++) if (brk_[all[j]] > 0) pairctx(all[j], plainon[i]); else pairctx(plainon[i], all[j]);
	} else if (!strcmp(mode, "huge")) {
		huge(arg);
	} else if (!strcmp(mode, "record")) {
		static const int pa[] = { 0, 1, 2, 3, 4, 5, 6 };
		for (long i = shard; i < arg; i += nshard) {
			int p = rn(25) ? pa[rn(7)] : 7 + rn(3);
			gen(p, 40); if (n > 170) n = 170, classify();
			if (!rn(6)) { t[rn(n)] = mem[XB][rn(nmem[XB])]; classify(); }
			record();
		}
	} else return 9;
	if (evenmirror) printf("STAT mirrored_at_even_level 1\n");
	done();
}

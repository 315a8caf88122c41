/* Replays behaviours of spec/Layout.tla: paragraphs, lines of any number of pieces, levels and
 * visual order of every line.  Expectations: line bimachine emitted by TLC, transcription of Bidi.tla.
 * usage: layout BIDITABLE MODE ARG SHARD NSHARD SEED LINETABLE */
#define main bidi_main
#include "bidi.c"
#undef main
static struct { int nc, nl, nr, dflt; int *ln, *rn; uint8_t *bk, *cls; } B;
static cp_t **lmem; static size_t *lnmem;
static void lload(const char *p)
{
	FILE *f = fopen(p, "r"); long i, j, k, runs;
	if (!f) { perror(p); exit(9); }
	B.nc = rdint(f); B.nl = rdint(f); B.nr = rdint(f); B.dflt = rdint(f);
	B.ln = calloc(B.nl * B.nc, sizeof(int)); B.rn = calloc(B.nr * B.nc, sizeof(int)); B.bk = calloc(B.nl * B.nr, 1); B.cls = malloc(0x110000);
	for (i = 0; i < B.nl * B.nc; i++) B.ln[i] = rdint(f);
	for (i = 0; i < B.nr * B.nc; i++) B.rn[i] = rdint(f);
	for (i = 0; i < B.nl * B.nr; i++) B.bk[i] = rdint(f);
	for (runs = rdint(f), i = 0; i < runs; i++) { long a = rdint(f), b = rdint(f); k = rdint(f); for (j = a; j <= b; j++) B.cls[j] = k; }
	fclose(f);
	lmem = calloc(B.nc, sizeof *lmem); lnmem = calloc(B.nc, sizeof *lnmem);
	for (k = 0; k < 2; k++) for (i = 0; i < B.nc; i++) {
		size_t m = 0;
		for (j = 1; j < 0x110000; j++) if (B.cls[j] == i && !(j >= 0xD800 && j <= 0xDFFF)) { if (k) lmem[i][m] = j; m++; }
		if (!k) lmem[i] = malloc((m + 1) * sizeof(cp_t)), lnmem[i] = m;
	}
}
static int lcls(cp_t x) { return x < 0x110000 ? B.cls[x] : B.dflt; }
static bool rec; static int rs_[MAXN + 1];
/* lays the text in t out */
static void layout(int d, size_t maxpieces)
{
	static cp_t all[MAXN]; size_t m = n, off, f, e, g, i, k; bool first = true;
	memcpy(all, t, n * sizeof *t);
	if (rec) { printf("SAMPLE {\"t\":"); put_txt(all, m, 4); printf(",\"d\":%d,\"paras\":[", d); }
	for (off = 0; off < m; off += plen) {
		n = m - off; memcpy(t, all + off, n * sizeof *t); classify();
		if (rec) {                            /* TLC looks at it; no expectations here */
			enum grapheme_bidirectional_direction r = 77;
			S = g_put(&gS, t, n, 4); cur_txt = S; cur_len = n; cur_w = 4; cur_arg = d; cur_fn = "grapheme_bidirectional_preprocess_paragraph"; calls++;
			D = (cp_t *)(gD.hi - n * 4);
			plen = grapheme_bidirectional_preprocess_paragraph(S, n, dirs[d], D, n, &r);
			if (!plen || plen > n) { printf("]}\n"); mismatch("length", 0, 0, 0, 0, 0, false); return; }
			gpl = res2pl(r); glen = plen;
		} else if (!prepare(d)) return;
		if (rec) printf("%s{\"len\":%zu,\"pl\":%d,\"lines\":[", first ? "" : ",", plen, gpl);
		first = false;
		/* the paragraph alone, at the end of accessible memory */
		for (rs_[plen] = 0, i = plen; i-- > 0;) rs_[i] = B.rn[rs_[i + 1] * B.nc + lcls(t[i])];
		int u8 = rn(3) == 0; static unsigned char b8[MAXN * 4]; static uint32_t o8[MAXN + 1]; size_t l8 = 0;
		for (i = 0; i < plen && u8; i++) if (t[i] > 0x10FFFF || (t[i] >= 0xD800 && t[i] <= 0xDFFF)) u8 = 0;
		for (i = 0; i < plen && u8; i++) { o8[i] = l8; l8 += enc(t[i], b8 + l8); }
		o8[plen] = l8;
		cp_t *p = g_put(&gN, t, plen, 4); char *p8 = (char *)gS.hi - l8; if (u8) memcpy(p8, b8, l8);
		for (f = 0; f < plen; f = e) {
			size_t pieces = 1 + rn(maxpieces);
			p = g_put(&gN, t, plen, 4);
			for (e = f, k = 0; k < pieces && e < plen; k++, e = i) {
				int l = 0;
				cur_txt = p; cur_len = plen; cur_w = 4; cur_arg = e; calls++; cur_fn = u8 ? "grapheme_next_line_break_utf8" : "grapheme_next_line_break";
				g = u8 ? grapheme_next_line_break_utf8(p8 + o8[e], l8 - o8[e]) : grapheme_next_line_break(p + e, plen - e);
				if (rec) {
					if (u8) { for (i = e; i < plen && o8[i] - o8[e] < g; i++); } else i = e + g;
					if (i > plen || i == e) { printf("]}]}\n"); fail("line break", "\"got\":%zu", g); return; }
					continue;
				}
				for (i = e;;) { l = B.ln[l * B.nc + lcls(t[i])]; i++; if (i >= plen || B.bk[l * B.nr + rs_[i]]) break; }
				if (g != (u8 ? o8[i] - o8[e] : i - e)) { fail("line break", "\"start\":%zu,\"want\":%zu,\"got\":%zu", e, u8 ? (size_t)(o8[i] - o8[e]) : i - e, g); return; }
			}
			if (!rec) { if (!line_levels(f, e - f) || !line_reorder(f, e - f)) return; continue; }
			cp_t *ld = g_put(&gM, D + f, e - f, 4), *ln = g_put(&gN, t + f, e - f, 4), *o = (cp_t *)(gO.hi - (e - f + 1) * 4);
			glev = (signed char *)gL.hi - (e - f); memset(glev, 77, e - f);
			grapheme_bidirectional_get_line_embedding_levels(ld, e - f, (int_least8_t *)glev, e - f);
			k = grapheme_bidirectional_reorder_line(ln, ld, e - f, o, e - f + 1); calls += 2;
			printf("%s{\"k\":%zu,\"to\":%zu,\"lev\":", f ? "," : "", pieces, e); put_i8(glev, e - f); printf(",\"out\":"); put_txt(o, k > e - f ? 0 : k, 4); printf("}");
		}
		if (rec) printf("]}");
	}
	if (rec) printf("]}\n");
	n = m; memcpy(t, all, m * sizeof *t);
}
/* texts: of the bidirectional generators, of line break classes, of both, as they occur */
static void mixed(size_t max)
{
	static cp_t a[MAXN]; size_t k, m; 
	switch (rn(4)) {
	case 0: gen(rn(7), max); break;
	case 1: for (n = 0, m = 1 + rn(max); n < m;) { int q = rn(B.nc); add(lmem[q][rn(rn(2) ? lnmem[q] : lnmem[q] < 4 ? lnmem[q] : 4)]); } break;
	case 2: window(); for (n = 0, m = 1 + rn(max); n < m;) add(inwindow()); break;
	default:
		gen(rn(7), max); m = n; memcpy(a, t, m * sizeof *a);
		for (n = 0, k = 0; k < m; k++) { add(a[k]); if (!rn(3)) { int q = rn(B.nc); add(lmem[q][rn(rn(2) ? lnmem[q] : lnmem[q] < 4 ? lnmem[q] : 4)]); } }
	}
	for (k = rn(4) ? rn(3) : n / 6; k-- > 0 && n;) t[rn(n)] = rn(2) ? ' ' : mem[XB][rn(nmem[XB])];
	classify();
}
int main(int argc, char **argv)
{
	if (argc < 8) return 9;
	const char *mode = argv[2]; long arg = atol(argv[3]); shard = atoi(argv[4]); nshard = atoi(argv[5]);
	h_init(strtoul(argv[6], 0, 10) * 1000003 + shard * 7919 + mode[0]);
	load(argv[1]); lload(argv[7]);
	gS = g_new(MAXN * 4 + 8); gD = g_new(MAXN * 4); gL = g_new(MAXN); gO = g_new(MAXN * 4 + 8); gN = g_new(MAXN * 4); gM = g_new(MAXN * 4);
	bm_need(&W, MAXN); cur_what = mode;
	if (!strcmp(mode, "exhaust")) {
		static const cp_t C[] = { 'a', 0x5D0, ' ', '\n', 0x1C, 0x2028, '1', '(', ')', '-', 0x2066, 0x2069, 0x202B, '\r', 0x661, 0x300, 0x200B, 0x4E00, '\t', '%' };
		for (long m = 1; m <= arg; m++) {
			uint64_t tot = 1; for (long i = 0; i < m; i++) tot *= 20;
			for (uint64_t q = shard; q < tot && nfail < 20; q += nshard) {
				uint64_t x = q; for (n = 0; n < (size_t)m; x /= 20) t[n++] = C[x % 20];
				classify(); layout(q / nshard % 3, 1 + rn(2));
			}
		}
	} else if (!strcmp(mode, "random")) for (long i = 0; i < arg && nfail < 20; i++) { mixed(rn(40) ? 40 : 400); layout(rn(3), 1 + rn(rn(4) ? 4 : 30)); }
	else if (!strcmp(mode, "long")) for (long i = 0; i < arg && nfail < 20; i++) {
		/* long texts of repeated paragraphs or lines */
		static cp_t a[4000]; size_t m, k;
		mixed(200); m = n < 4000 ? n : 4000; memcpy(a, t, m * sizeof *a);
		for (k = 1 + rn(rn(8) ? 6 : 40), n = 0; k--;) { for (size_t q = 0; q < m && n < 6000; q++) t[n++] = a[q]; if (rn(2)) t[n++] = rn(2) ? ' ' : mem[XB][rn(nmem[XB])]; }
		classify(); layout(rn(3), 1 + rn(rn(2) ? 8 : 200));
	} else if (!strcmp(mode, "record")) { rec = true; for (long i = 0; i < arg && !nfail; i++) { mixed(30); if (n > 60) n = 60, classify(); layout(rn(3), 1 + rn(5)); } }
	else return 9;
	done();
}

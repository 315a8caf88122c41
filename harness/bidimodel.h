/* A transcription of spec/Bidi.tla, operator by operator, used to find
 * candidate mismatches quickly; TLC decides with the specification itself,
 * and the transcription is compared with the specification on every run. */
#ifndef BIDIMODEL_H
#define BIDIMODEL_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>

enum { XL, XR, XAL, XEN, XES, XET, XAN, XCS, XNSM, XBN, XB, XS, XWS, XON,
       XLRE, XLRO, XRLE, XRLO, XPDF, XLRI, XRLI, XFSI, XPDI, NBC };
static const char *const bcname[NBC] = { "L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN",
	"B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI" };
static int bm_maxdepth = 125, bm_maxpairs = 63;

static inline bool bm_init(int x) { return x == XLRI || x == XRLI || x == XFSI; }
static inline bool bm_removed(int x) { return (x >= XLRE && x <= XPDF) || x == XBN; }
static inline bool bm_strong(int x) { return x == XL || x == XR || x == XAL; }
static inline bool bm_ni(int x) { return x == XB || x == XS || x == XWS || x == XON || x == XPDI || bm_init(x); }
static inline bool bm_blank(int x) { return x == XWS || x == XPDI || bm_init(x); }
static inline int bm_as(int x) { return x == XL ? XL : x == XR || x == XEN || x == XAN ? XR : -1; }

/* work space for texts up to cap characters */
struct bm { int cap; int *m, *stk, *seq, *next, *t, *t0, *bk, *ps, *right; char *nsm, *inr, *has;
            signed char *lev; unsigned char *typ; };
static void bm_need(struct bm *w, int n)
{
	if (n + 2 <= w->cap) return;
	w->cap = n + 64;
#define A(f) w->f = realloc(w->f, (size_t)w->cap * sizeof *w->f)
	A(m); A(stk); A(seq); A(next); A(t); A(t0); A(bk); A(ps); A(right); A(nsm); A(inr); A(has); A(lev); A(typ);
#undef A
}
static int bm_p1(const unsigned char *c, int n)
{
	for (int i = 0; i < n; i++) if (c[i] == XB) return i + 1;
	return n;
}
static void bm_match(struct bm *w, const unsigned char *c, int n)
{
	int s = 0;
	for (int i = 0; i < n; i++) {
		w->m[i] = bm_init(c[i]) ? n : -1;
		if (bm_init(c[i])) w->stk[s++] = i;
		else if (c[i] == XPDI && s) w->m[w->stk[--s]] = i;
	}
}
/* over from..to-1 */
static int bm_first(struct bm *w, const unsigned char *c, int from, int to)
{
	for (int i = from; i < to; i++) {
		if (bm_init(c[i])) { if (w->m[i] >= to) return -1; i = w->m[i]; continue; }
		if (bm_strong(c[i])) return c[i];
	}
	return -1;
}
static int bm_plevel(struct bm *w, const unsigned char *c, int n, int dir)
{
	bm_need(w, n); bm_match(w, c, n);
	if (dir) return dir - 1;
	int s = bm_first(w, c, 0, n);
	return s == XR || s == XAL;
}
static void bm_explicit(struct bm *w, const unsigned char *c, int n, int pl)
{
	struct e { int lv, ov; bool iso; } stk[130]; int sp = 0, oi = 0, oe = 0, vi = 0;
	stk[0] = (struct e){ pl, -1, false };
	for (int i = 0; i < n; i++) {
		int x = c[i], k = x;
		if (x == XFSI) { int s = bm_first(w, c, i + 1, w->m[i]); k = s == XR || s == XAL ? XRLI : XLRI; }
		int odd = stk[sp].lv % 2 ? stk[sp].lv + 2 : stk[sp].lv + 1;
		int even = stk[sp].lv % 2 ? stk[sp].lv + 1 : stk[sp].lv + 2;
		w->lev[i] = -1; w->typ[i] = x;
		if (x >= XLRE && x <= XRLO) {
			int l = x == XRLE || x == XRLO ? odd : even;
			if (l <= bm_maxdepth && !oi && !oe) stk[++sp] = (struct e){ l, x == XRLO ? XR : x == XLRO ? XL : -1, false };
			else if (!oi) oe++;
		} else if (k == XRLI || k == XLRI) {
			int l = k == XRLI ? odd : even;
			w->lev[i] = stk[sp].lv; if (stk[sp].ov >= 0) w->typ[i] = stk[sp].ov;
			if (l <= bm_maxdepth && !oi && !oe) { stk[++sp] = (struct e){ l, -1, true }; vi++; }
			else oi++;
		} else if (x == XPDI) {
			if (oi) oi--;
			else if (vi) { oe = 0; while (!stk[sp].iso) sp--; sp--; vi--; }
			w->lev[i] = stk[sp].lv; if (stk[sp].ov >= 0) w->typ[i] = stk[sp].ov;
		} else if (x == XPDF) {
			if (oi) ; else if (oe) oe--; else if (!stk[sp].iso && sp) sp--;
		} else if (x == XB) w->lev[i] = pl;
		else if (x != XBN) { w->lev[i] = stk[sp].lv; if (stk[sp].ov >= 0) w->typ[i] = stk[sp].ov; }
	}
}
static void bm_lookback(int *t, int r, int sos, int when, int to)
{
	for (int i = 0, s = sos; i < r; i++) {
		if (bm_strong(t[i])) s = t[i];
		else if (t[i] == XEN && s == when) t[i] = to;
	}
}
/* types of the sequence in t */
static int bm_last_overflow = 0;
static void bm_resolve_seq(struct bm *w, int r, int sos, int eos, int e)
{
	int *t = w->t;
	for (int i = 0; i < r; i++)                                                             /* W1 */
		if (t[i] == XNSM) { int p = i ? t[i - 1] : sos; t[i] = bm_init(p) || p == XPDI ? XON : p; }
	bm_lookback(t, r, sos, XAL, XAN);                                                       /* W2 */
	for (int i = 0; i < r; i++) if (t[i] == XAL) t[i] = XR;                                 /* W3 */
	memcpy(w->t0, t, r * sizeof *t);
	for (int i = 1; i + 1 < r; i++) {                                                       /* W4 */
		int a = w->t0[i - 1], x = w->t0[i];
		if (a == w->t0[i + 1] && ((a == XEN && (x == XES || x == XCS)) || (a == XAN && x == XCS))) t[i] = a;
	}
	for (int i = 1; i < r; i++) if (t[i] == XET && t[i - 1] == XEN) t[i] = XEN;             /* W5 */
	for (int i = r - 2; i >= 0; i--) if (t[i] == XET && t[i + 1] == XEN) t[i] = XEN;
	for (int i = 0; i < r; i++) if (t[i] == XES || t[i] == XET || t[i] == XCS) t[i] = XON;  /* W6 */
	bm_lookback(t, r, sos, XL, XL);                                                         /* W7 */
	/* BD16 */
	int sp = 0; bool any = false;
	for (int i = 0; i < r; i++) w->ps[i] = -1;
	for (int i = 0; i < r; i++) {
		if (!w->bk[i] || t[i] != XON) continue;
		if (w->bk[i] > 0) { if (sp == bm_maxpairs) { bm_last_overflow++; break; } w->stk[sp++] = i; }
		else for (int j = sp; j-- > 0;)
			if (w->bk[w->stk[j]] == -w->bk[i]) { w->ps[w->stk[j]] = i; sp = j; any = true; break; }
	}
	for (int o = 0; any && o < r; o++) {                                                    /* N0 */
		int z = w->ps[o]; bool se = false, so = false; int ctx = sos, d;
		if (z < 0) continue;
		for (int i = o + 1; i < z; i++) { int a = bm_as(t[i]); if (a == e) se = true; else if (a >= 0) so = true; }
		if (!se && !so) continue;
		for (int i = 0; i < o; i++) if (bm_as(t[i]) >= 0) ctx = bm_as(t[i]);
		d = se ? e : so && ctx != e ? (e == XL ? XR : XL) : e;
		t[o] = t[z] = d;
		for (int i = o + 1; i < r && w->nsm[i]; i++) t[i] = d;
		for (int i = z + 1; i < r && w->nsm[i]; i++) t[i] = d;
	}
	w->right[r] = eos;                                                                      /* N1, N2 */
	for (int i = r - 1; i >= 0; i--) w->right[i] = bm_ni(t[i]) ? w->right[i + 1] : bm_as(t[i]);
	for (int i = 0, left = sos; i < r; i++) {
		if (!bm_ni(t[i])) left = bm_as(t[i]);
		else t[i] = left == w->right[i] ? left : e;
	}
}
/* levels after I1, I2 in w->lev */
static void bm_resolve(struct bm *w, const unsigned char *c, const signed char *b, int n, int pl)
{
	bm_need(w, n); bm_match(w, c, n); bm_explicit(w, c, n, pl);
	/* chains of positions; next[i] continues i within its isolating run sequence */
	memset(w->has, 0, n + 1);
	int prev = -1; signed char *xl = malloc(n + 1); int *pk = malloc((n + 1) * sizeof *pk), *nk = malloc((n + 1) * sizeof *nk);
	memcpy(xl, w->lev, n);
	for (int i = 0; i < n; i++) { pk[i] = prev; if (xl[i] != -1) prev = i; }
	prev = -1;
	for (int i = n - 1; i >= 0; i--) { nk[i] = prev; if (xl[i] != -1) prev = i; }
	for (int i = 0; i < n; i++) {
		w->next[i] = -1;
		if (xl[i] == -1) continue;
		int q = nk[i];
		if (q >= 0 && xl[q] == xl[i]) w->next[i] = q;
		else if (bm_init(c[i]) && w->m[i] < n) w->next[i] = w->m[i];
		if (w->next[i] >= 0) w->has[w->next[i]] = 1;
	}
	for (int s = 0; s < n; s++) {
		if (xl[s] == -1 || w->has[s]) continue;
		int r = 0;
		for (int p = s; p >= 0; p = w->next[p]) w->seq[r++] = p;
		int z = w->seq[r - 1], l = xl[s];
		int bl = pk[s] < 0 ? pl : xl[pk[s]];
		int fl = nk[z] < 0 || bm_init(c[z]) ? pl : xl[nk[z]];
		int sos = (l > bl ? l : bl) % 2 ? XR : XL, eos = (l > fl ? l : fl) % 2 ? XR : XL;
		for (int i = 0; i < r; i++) {
			int p = w->seq[i];
			w->t[i] = w->typ[p]; w->bk[i] = b[p]; w->nsm[i] = c[p] == XNSM;
		}
		bm_resolve_seq(w, r, sos, eos, l % 2 ? XR : XL);
		for (int i = 0; i < r; i++) {
			int p = w->seq[i], x = w->t[i];
			if (l % 2 == 0) w->lev[p] = x == XR ? l + 1 : x == XAN || x == XEN ? l + 2 : l;
			else w->lev[p] = x == XL || x == XAN || x == XEN ? l + 1 : l;
		}
	}
	free(xl); free(pk); free(nk);
}
static void bm_line(const unsigned char *c, const signed char *lev, int pl, int from, int n, signed char *ll)
{
	bool reset = true;
	for (int i = n - 1; i >= 0; i--) {
		int x = c[from + i], l = lev[from + i];
		if (l == -1) { ll[i] = -1; continue; }
		if (x == XS || x == XB) { reset = true; ll[i] = pl; }
		else if (bm_blank(x)) ll[i] = reset ? pl : l;
		else { reset = false; ll[i] = l; }
	}
}
/* visual order of the kept positions of the line; returns their number */
static int bm_reorder(const signed char *ll, int n, int *v)
{
	int k = 0, top = 0;
	for (int i = 0; i < n; i++) if (ll[i] != -1) { v[k++] = i; if (ll[i] > top) top = ll[i]; }
	for (int l = top; l >= 1; l--)
		for (int i = 0; i < k;) {
			int j = i;
			while (j < k && ll[v[j]] >= l) j++;
			for (int a = i, z = j - 1; a < z; a++, z--) { int x = v[a]; v[a] = v[z]; v[z] = x; }
			i = j > i ? j : i + 1;
		}
	return k;
}
#endif

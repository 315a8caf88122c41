/* UTF-8 decoder automaton emitted by TLC from spec/UTF8.tla */
#ifndef U8MODEL_H
#define U8MODEL_H
static int un; static int *uneed; static struct ust { uint8_t q, out, n, again; } *ustp;
static void u8_load(FILE *f)
{
	un = rdint(f); uneed = malloc(un * sizeof *uneed); ustp = malloc(un * 256 * sizeof *ustp);
	for (int i = 0; i < un; i++) uneed[i] = rdint(f);
	for (int i = 0; i < un * 256; i++) { ustp[i].q = rdint(f); ustp[i].out = rdint(f); ustp[i].n = rdint(f); ustp[i].again = rdint(f); }
}
/* one decoding step of s[0..n) */
static inline size_t u8_step(const unsigned char *s, size_t n, cp_t *cp)
{
	size_t i; int q = 0; cp_t v = 0;
	*cp = 0xFFFD;
	for (i = 0; i < n; i++) {
		struct ust t = ustp[q * 256 + s[i]];
		v = i ? v << 6 | (s[i] & 0x3F) : s[0] < 0x80 ? s[0] : s[0] < 0xE0 ? s[0] & 0x1F : s[0] < 0xF0 ? s[0] & 0xF : s[0] & 7;
		if (t.out) { if (t.out == 1) *cp = v; return t.n; }
		q = t.q;
	}
	return n ? uneed[q] : 0;
}
#endif

/* Sessions: sequential histories, exactly scheduled threads, free-running
 * threads. Every call's result is compared with the one it gives as the first
 * call of a fresh process.
 *
 * Scheduling: while a thread is in a call, the trap flag delivers a signal after
 * every instruction; when the number of instructions of its segment is used up,
 * the thread passes the turn on, as the history from the specification says. */
#include "h.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <ucontext.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/futex.h>

enum { NCH, NWO, NSE, NLI, NCH8, NWO8, NSE8, NLI8, TLO, TUP, TTI, TLO8, TUP8, TTI8,
       ILO, IUP, ITI, ILO8, IUP8, ITI8, DEC, ENC, ICB, ICBS, PRE, LEV, REO, NFN };
static const char *fname[] = { "next_character_break", "next_word_break", "next_sentence_break", "next_line_break",
	"next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
	"to_lowercase", "to_uppercase", "to_titlecase", "to_lowercase_utf8", "to_uppercase_utf8", "to_titlecase_utf8",
	"is_lowercase", "is_uppercase", "is_titlecase", "is_lowercase_utf8", "is_uppercase_utf8", "is_titlecase_utf8",
	"decode_utf8", "encode_utf8", "is_character_break", "is_character_break with state",
	"bidirectional_preprocess_paragraph", "bidirectional_get_line_embedding_levels", "bidirectional_reorder_line" };
static inline int is8(int f) { return (f >= NCH8 && f <= NLI8) || (f >= TLO8 && f <= TTI8) || (f >= ILO8 && f <= ITI8) || f == DEC; }

#define MAXT 6000
#define NTXT 64
#define NVAR 3
#define DCAP 64                     /* bytes of destination per codepoint at most */
static cp_t *txt[NTXT]; static size_t tlen[NTXT];
static unsigned char *u8[NTXT]; static size_t ulen[NTXT];
static cp_t *ro[NTXT]; static unsigned char *ro8[NTXT];        /* read-only copies */
static int ntxt, nshort;

struct arena { cp_t *src; unsigned char *src8, *dst; uint_least32_t *data; };
static struct arena mkarena(void)
{
	struct arena a = { malloc(MAXT * 4 + 64), malloc(MAXT * 4 + 64), malloc(MAXT * 16 + 64), malloc(MAXT * 4 + 64) };
	return a;
}
static inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x; h *= 0x100000001B3u; return h ^ h >> 29; }
static uint64_t mixb(uint64_t h, const void *p, size_t n)
{
	const unsigned char *q = p;
	for (; n >= 8; n -= 8, q += 8) { uint64_t x; memcpy(&x, q, 8); h = mix(h, x); }
	for (; n; n--, q++) h = mix(h, *q);
	return h;
}
/* one call; s, s8: where the text lies; var: variant of the further arguments */
static uint64_t call(int f, int k, int var, const cp_t *s, const unsigned char *s8v, struct arena *a)
{
	const char *s8 = (const char *)s8v;
	size_t n = tlen[k], m = ulen[k], r = 0, x = 0, dl, w;
	uint64_t h = 0xcbf29ce484222325u;
	enum grapheme_bidirectional_direction res = 9;
	uint_least16_t st = 0; cp_t c = 0; bool b;
	size_t N = var == 1 ? SIZE_MAX : n, M = var == 1 ? SIZE_MAX : m;   /* NUL-terminated */
	size_t used = 0;
	switch (f) {
	case NCH: r = grapheme_next_character_break(s, N); break;
	case NWO: r = grapheme_next_word_break(s, N); break;
	case NSE: r = grapheme_next_sentence_break(s, N); break;
	case NLI: r = grapheme_next_line_break(s, N); break;
	case NCH8: r = grapheme_next_character_break_utf8(s8, M); break;
	case NWO8: r = grapheme_next_word_break_utf8(s8, M); break;
	case NSE8: r = grapheme_next_sentence_break_utf8(s8, M); break;
	case NLI8: r = grapheme_next_line_break_utf8(s8, M); break;
	case TLO: case TUP: case TTI: case TLO8: case TUP8: case TTI8:
		w = is8(f) ? 1 : 4; dl = var == 2 ? (is8(f) ? m / 2 : n / 2) : (is8(f) ? 3 * m + 1 : 3 * n + 1);
		used = dl * w; memset(a->dst, 0xA5, used + 8);
		r = f == TLO ? grapheme_to_lowercase(s, N, (cp_t *)a->dst, dl) : f == TUP ? grapheme_to_uppercase(s, N, (cp_t *)a->dst, dl) :
		    f == TTI ? grapheme_to_titlecase(s, N, (cp_t *)a->dst, dl) : f == TLO8 ? grapheme_to_lowercase_utf8(s8, M, (char *)a->dst, dl) :
		    f == TUP8 ? grapheme_to_uppercase_utf8(s8, M, (char *)a->dst, dl) : grapheme_to_titlecase_utf8(s8, M, (char *)a->dst, dl);
		break;
	case ILO: r = grapheme_is_lowercase(s, N, &x); break;
	case IUP: r = grapheme_is_uppercase(s, N, &x); break;
	case ITI: r = grapheme_is_titlecase(s, N, &x); break;
	case ILO8: r = grapheme_is_lowercase_utf8(s8, M, &x); break;
	case IUP8: r = grapheme_is_uppercase_utf8(s8, M, &x); break;
	case ITI8: r = grapheme_is_titlecase_utf8(s8, M, &x); break;
	case DEC: r = grapheme_decode_utf8(s8, var == 2 && m > 1 ? 1 : m, &c); x = c; break;
	case ENC: memset(a->dst, 0xA5, 16); used = 8; r = grapheme_encode_utf8(s[0], (char *)a->dst, var == 2 ? 1 : 4); break;
	case ICB: r = n > 1 ? grapheme_is_character_break(s[var == 2 ? n - 2 : 0], s[var == 2 ? n - 1 : 1], NULL) : 0; break;
	case ICBS: for (size_t i = 1; i < n && i < 40; i++) { b = grapheme_is_character_break(s[i - 1], s[i], &st); h = mix(h, b); h = mix(h, st); } break;
	case PRE: case LEV: case REO:
		memset(a->data, 0, n * 4 + 4);
		r = grapheme_bidirectional_preprocess_paragraph(s, n, var, a->data, n, &res); x = res;
		if (f == PRE) { h = mixb(h, a->data, r * 4); break; }
		memset(a->dst, 0x5A, n * 4 + 8); used = f == LEV ? r + 4 : r * 4 + 4;
		h = mix(h, r);
		{ size_t o = var == 2 ? r / 3 : 0;
		r = f == LEV ? grapheme_bidirectional_get_line_embedding_levels(a->data + o, r - o, (int_least8_t *)a->dst, r - o)
		             : grapheme_bidirectional_reorder_line(s + o, a->data + o, r - o, (cp_t *)a->dst, r - o); }
		break;
	}
	h = mix(mix(mix(h, r), x), used);
	if (used) h = mixb(h, a->dst, used + 4);
	return h;
}

/* ------------------------------- corpus ------------------------------------ */
static const cp_t base[] = { 'a', 'b', 'Z', '1', '2', '3', ' ', '\t', '.', ',', '!', '?', ':', '\'', '"', '(', ')', '[', ']', '-', '$', '%', '/', '\n', '\r',
	0xA0, 0xAD, 0xDF, 0xE9, 0x130, 0x149, 0x1C6, 0x300, 0x301, 0x345, 0x391, 0x3A3, 0x3C3, 0x3B1, 0x430, 0x416, 0x587, 0x5D0, 0x5D1, 0x5B0, 0x600, 0x627, 0x628,
	0x660, 0x64B, 0x903, 0xE01, 0xE31, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x200B, 0x200D, 0x2010, 0x2014, 0x2018, 0x2019, 0x2028, 0x2029, 0x202A, 0x202B, 0x202C,
	0x202D, 0x202E, 0x2060, 0x2066, 0x2067, 0x2068, 0x2069, 0x20AC, 0x231A, 0x263A, 0x3002, 0x3042, 0x30A2, 0x4E00, 0xFB00, 0xFE0F, 0xFFFC, 0xFFFD, 0x1F1E6, 0x1F1E7,
	0x1F600, 0x1F3FB, 0x1F469, 0x10400, 0x10428, 0xE0020, 0xE0061 };
#define NB (sizeof base / sizeof *base)
static void addtext(const cp_t *t, size_t n)
{
	int k = ntxt++;
	txt[k] = malloc((n + 1) * 4); memcpy(txt[k], t, n * 4); txt[k][n] = 0; tlen[k] = n;
	u8[k] = malloc(n * 4 + 1); size_t m = 0;
	for (size_t i = 0; i < n; i++) {             /* not by the library: nothing may run before the fresh calls */
		cp_t c = t[i];
		if (c < 0x80) u8[k][m++] = c;
		else if (c < 0x800) u8[k][m++] = 0xC0 | c >> 6, u8[k][m++] = 0x80 | (c & 63);
		else if (c < 0x10000) u8[k][m++] = 0xE0 | c >> 12, u8[k][m++] = 0x80 | (c >> 6 & 63), u8[k][m++] = 0x80 | (c & 63);
		else u8[k][m++] = 0xF0 | c >> 18, u8[k][m++] = 0x80 | (c >> 12 & 63), u8[k][m++] = 0x80 | (c >> 6 & 63), u8[k][m++] = 0x80 | (c & 63);
	}
	if (n < 100 && k % 7 == 3) u8[k][rn(m)] = 0xFF - rn(128) % 64;       /* malformed */
	u8[k][m] = 0; ulen[k] = m;
}
static void corpus(void)
{
	static cp_t t[MAXT];
	while (ntxt < 48) {
		size_t n = 1 + rn(12);
		for (size_t i = 0; i < n; i++) t[i] = rn(3) ? base[rn(NB)] : base[rn(8)];
		addtext(t, n);
		/* neighbours: one codepoint different, first or last or anywhere; same length */
		t[rn(3) ? 0 : rn(n)] = base[rn(NB)]; addtext(t, n);
		t[n - 1] = base[rn(NB)]; addtext(t, n);
	}
	nshort = ntxt;
	static const size_t big[] = { 70, 130, 300, 700, 1500, 3000 };
	for (int b = 0; b < 6 && ntxt + 2 <= NTXT; b++) {
		for (size_t i = 0; i < big[b]; i++) t[i] = rn(4) ? base[rn(NB)] : base[rn(8)];
		if (b & 1) for (size_t i = 0; i < big[b]; i++) if (t[i] == '\n' || t[i] == '\r' || t[i] == 0x2029) t[i] = 0x5D0 + i % 20;
		addtext(t, big[b]);
		t[0] = base[rn(NB)]; t[big[b] - 1] = base[rn(NB)]; addtext(t, big[b]);
	}
	/* one cluster/word/line over everything: long runs */
	for (int k = 0; k < ntxt; k++) {
		size_t s4 = (tlen[k] + 1) * 4, s1 = ulen[k] + 1;
		ro[k] = mmap(0, s4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		ro8[k] = mmap(0, s1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		memcpy(ro[k], txt[k], s4); memcpy(ro8[k], u8[k], s1);
		mprotect(ro[k], s4, PROT_READ); mprotect(ro8[k], s1, PROT_READ);
	}
}
static uint64_t fresh[NFN][NTXT][NVAR];
static void freshall(void)
{
	/* every call as the first one of a process */
	size_t sz = sizeof fresh;
	uint64_t *sh = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	struct arena a = mkarena();
	fflush(stdout);
	for (int f = 0; f < NFN; f++) for (int k = 0; k < ntxt; k++) for (int v = 0; v < NVAR; v++) {
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(9); }
		if (p == 0) { alarm(20); signal(SIGSEGV, SIG_DFL); sh[(f * NTXT + k) * NVAR + v] = call(f, k, v, ro[k], ro8[k], &a); _exit(0); }
		int st; waitpid(p, &st, 0);
		if (st) {
			cur_fn = fname[f]; cur_txt = txt[k]; cur_len = tlen[k]; cur_w = 4; cur_arg = v; cur_what = "first call of a process, source in read-only memory";
			fail("crash", "\"status\":%d", st);
		}
	}
	memcpy(fresh, sh, sz);
}
static void wrong(const char *kind, int f, int k, int v)
{
	cur_fn = fname[f]; cur_arg = v;
	if (is8(f)) cur_txt = u8[k], cur_len = ulen[k], cur_w = 1; else cur_txt = txt[k], cur_len = tlen[k], cur_w = 4;
	fail(kind, "");
}
/* the same call at a fixed address: the caller fills its buffer first */
static bool atbuf(int f, int k, int v, struct arena *a)
{
	memcpy(a->src, txt[k], (tlen[k] + 1) * 4); memcpy(a->src8, u8[k], ulen[k] + 1);
	uint64_t h = call(f, k, v, a->src, a->src8, a);
	return h == fresh[f][k][v] && !memcmp(a->src, txt[k], (tlen[k] + 1) * 4) && !memcmp(a->src8, u8[k], ulen[k] + 1);
}
static bool atro(int f, int k, int v, struct arena *a) { return call(f, k, v, ro[k], ro8[k], a) == fresh[f][k][v]; }

/* ------------------------------ scheduling --------------------------------- */
#define MAXEV 64
struct ev { int t; char kind; int f, x; };
static struct ev evs[MAXEV]; static int nev;
static volatile int pos, turn, freerun; static volatile uint64_t progress;
static long steps[NFN][NTXT][NVAR];
struct th { int id; pthread_t p; struct arena a; volatile long budget, taken; long cut[3]; bool ok, kept; int f, k, v; pthread_t q; };
static struct th ths[4];
static __thread struct th *me;
static int mapf[2], mapx[2], mapv;

static void fwait(volatile int *p, int val)
{
	struct timespec ts = { 0, 100000000 };
	syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, val, &ts, 0, 0);
}
static void settle_source(void)
{
	/* at every handover: the sources of all threads hold what their callers put there */
	for (int i = 1; i <= 3; i++) {
		struct th *t = &ths[i];
		if (t->f < 0) continue;
		if (memcmp(t->a.src, txt[t->k], (tlen[t->k] + 1) * 4) || memcmp(t->a.src8, u8[t->k], ulen[t->k] + 1)) t->kept = false;
	}
}
static void nextseg(void)
{
	settle_source();
	pos++; turn = pos < nev ? evs[pos].t : 0;
	syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0);
}
static void waitturn(struct th *t)
{
	int stale = 0; uint64_t last = progress;
	while (!freerun) {
		int v = turn;
		if (v == t->id) return;
		fwait(&turn, v);
		if (turn == v) {
			if (progress == last) { if (++stale > 20) { freerun = 1; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0); } }
			else stale = 0, last = progress;
		}
	}
}
static void budget(struct th *t)
{
	if (freerun || evs[pos].kind == 'e') t->budget = -1;
	else t->budget = t->cut[t->taken++];
}
static void onstep(int s, siginfo_t *i, void *u)
{
	(void)s; (void)i;
	int e = errno;
	struct th *t = me;
	progress++;
	if (t->budget > 0 && --t->budget == 0) {
		if (!freerun) { nextseg(); waitturn(t); }
		budget(t);
	}
	if (t->budget < 0) ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
	errno = e;
}
#define TF_ON() __asm__ volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc")
#define TF_OFF() __asm__ volatile("lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc")
static void measure(int f, int k, int v)
{
	if (steps[f][k][v]) return;
	struct th *t = &ths[1]; me = t;
	uint64_t p0 = progress; t->budget = 0; int fr = freerun; freerun = 0;
	t->budget = 1L << 60;
	memcpy(t->a.src, txt[k], (tlen[k] + 1) * 4); memcpy(t->a.src8, u8[k], ulen[k] + 1);
	TF_ON();
	uint64_t h = call(f, k, v, t->a.src, t->a.src8, &t->a);
	TF_OFF();
	freerun = fr;
	steps[f][k][v] = progress - p0;
	if (h != fresh[f][k][v]) wrong("result differs (single-stepped)", f, k, v);
}
static void *thread(void *p)
{
	struct th *t = me = p;
	for (;;) {
		waitturn(t);
		/* my next call in the history */
		int i = pos;
		if (freerun) return 0;
		if (i >= nev) return 0;
		struct ev *e = &evs[i];
		t->k = mapx[e->x]; t->v = mapv; t->f = mapf[e->f];
		memcpy(t->a.src, txt[t->k], (tlen[t->k] + 1) * 4); memcpy(t->a.src8, u8[t->k], ulen[t->k] + 1);
		long n = steps[t->f][t->k][t->v], c1 = 1 + (rs[0] >> 7) % n, c2 = 1 + (rs[1] >> 9) % n, c3 = 1 + (rs[0] >> 23) % n, z;
		rnd();
		if (c1 > c2) z = c1, c1 = c2, c2 = z;
		if (c2 > c3) z = c2, c2 = c3, c3 = z;
		if (c1 > c2) z = c1, c1 = c2, c2 = z;
		t->cut[0] = c1; t->cut[1] = c2 > c1 ? c2 - c1 : 1; t->cut[2] = c3 > c2 ? c3 - c2 : 1; t->taken = 0;
		budget(t);
		TF_ON();
		uint64_t h = call(t->f, t->k, t->v, t->a.src, t->a.src8, &t->a);
		TF_OFF();
		if (h != fresh[t->f][t->k][t->v]) t->ok = false;
		if (memcmp(t->a.src, txt[t->k], (tlen[t->k] + 1) * 4) || memcmp(t->a.src8, u8[t->k], ulen[t->k] + 1)) t->kept = false;
		if (!t->ok || !t->kept) { freerun = 1; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0); return 0; }
		/* segments of this call that were not needed */
		while (!freerun && evs[pos].kind != 'e') { nextseg(); waitturn(t); }
		int last = 1;
		t->f = -1;
		for (int j = pos + 1; j < nev; j++) if (evs[j].t == t->id) last = 0;
		if (!freerun) nextseg();
		if (last) return 0;
	}
}
static volatile long blocked = 0;
static void schedule(int nth)
{
	pos = 0; turn = 0; freerun = 0;
	for (int i = 1; i <= nth; i++) { ths[i].id = i; ths[i].ok = ths[i].kept = true; ths[i].f = -1; pthread_create(&ths[i].p, 0, thread, &ths[i]); }
	turn = evs[0].t; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0);
	bool bad = false;
	for (int i = 1; i <= nth; i++) { pthread_join(ths[i].p, 0); }
	for (int i = 1; i <= nth; i++) if (!ths[i].ok || !ths[i].kept) {
		char hist[1024]; int o = 0;
		for (int j = 0; j < nev; j++) o += snprintf(hist + o, sizeof hist - o, "%d%c ", evs[j].t, evs[j].kind);
		struct th *t = &ths[i]; int f = t->f < 0 ? mapf[0] : t->f;
		cur_fn = fname[f]; cur_what = hist; cur_arg = t->v; cur_txt = txt[t->k]; cur_len = tlen[t->k]; cur_w = 4;
		fail(t->kept ? "result differs under a schedule" : "source changed under a schedule", "\"other\":\"%s\",\"cuts\":[%ld,%ld,%ld]", fname[mapf[mapf[0] == f]], t->cut[0], t->cut[1], t->cut[2]);
		bad = true;
	}
	if (!bad && freerun) blocked++;
	cases++;
}

/* every instruction of a call is a place where another thread makes a whole call */
static int swf, swk, swv; static volatile bool swbad; static struct arena swa; static volatile int swstop; static volatile long swcalls;
static void *partner(void *p)
{
	(void)p;
	for (;;) {
		while (turn != 2) fwait(&turn, 1);
		if (swstop) return 0;
		if (!atbuf(swf, swk, swv, &swa)) swbad = true;
		swcalls++; progress++;
		turn = 1; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0);
	}
}
static long every, inst;
static void onsweep(int s, siginfo_t *i, void *u)
{
	(void)s; (void)i; int e = errno;
	inst++;
	if (!(inst % every) && !freerun) {
		int stale = 0;
		turn = 2; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0);
		uint64_t last = progress;
		while (turn == 2) {
			fwait(&turn, 2);
			if (turn == 2) { if (progress == last) { if (++stale > 20) { freerun = 1; break; } } else stale = 0, last = progress; }
		}
	}
	if (freerun) ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
	errno = e;
}
static void sweeps(long n)
{
	struct sigaction sa; pthread_t p; struct arena a = mkarena(); swa = mkarena();
	memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsweep; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
	turn = 1; pthread_create(&p, 0, partner, 0);
	cur_what = "another thread makes a call after every instruction";
	for (long i = 0; i < n && !freerun; i++) {
		int f = rn(NFN), k = rn(nshort), v = rn(NVAR);
		while (tlen[k] > 6) k = rn(nshort);
		/* the other call: often the same or a related function, often a text that shares characters */
		swf = rn(3) ? f : rn(NFN); swk = rn(4) ? k / 3 * 3 + rn(3) : rn(nshort); swv = rn(NVAR);
		every = f >= PRE ? 3 + rn(9) : 1 + rn(3); inst = 0; cur_fn = fname[f]; cur_txt = txt[k]; cur_len = tlen[k]; cur_w = 4; cur_arg = v;
		memcpy(a.src, txt[k], (tlen[k] + 1) * 4); memcpy(a.src8, u8[k], ulen[k] + 1);
		TF_ON();
		uint64_t h = call(f, k, v, a.src, a.src8, &a);
		TF_OFF();
		if (h != fresh[f][k][v] || memcmp(a.src, txt[k], (tlen[k] + 1) * 4) || memcmp(a.src8, u8[k], ulen[k] + 1)) wrong("result or source differs", f, k, v);
		if (swbad) { swbad = false; wrong("result or source of the interrupting call differs", swf, swk, swv); }
		cases++; calls = cases + swcalls;
	}
	swstop = 1; turn = 2; syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0);
	if (!freerun) pthread_join(p, 0);
	printf("STAT blocked %d\n", freerun);
}
/* ------------------------------ free running ------------------------------- */
static _Atomic long clockv;
struct lg { long b, e; int c, kept; uint64_t h; };
struct ft { struct lg *lg; struct arena a; uint64_t r0, r1; long n; int badf, badk, badv; pthread_t p; };
static volatile int stop_;
static inline uint64_t frnd(struct ft *t) { uint64_t a = t->r0, b = t->r1; t->r0 = b; a ^= a << 23; t->r1 = a ^ b ^ (a >> 17) ^ (b >> 26); return t->r1 + b; }
static void *freethread(void *p)
{
	struct ft *t = p; t->badf = -1;
	int f = 0, k = 0, v = 0;
	for (long i = 0; i < t->n && !stop_; i++) {
		uint64_t x = frnd(t);
		if (!(x & 3)) f = (x >> 8) % NFN;
		if (!(x & 4)) k = (x >> 20) % 50 ? (x >> 30) % nshort : (x >> 30) % ntxt;
		v = (x >> 50) % NVAR;
		if (t->lg) {
			struct lg *l = &t->lg[i];
			l->c = (f * NTXT + k) * NVAR + v; 
			memcpy(t->a.src, txt[k], (tlen[k] + 1) * 4); memcpy(t->a.src8, u8[k], ulen[k] + 1);
			l->b = clockv++;
			l->h = call(f, k, v, t->a.src, t->a.src8, &t->a);
			l->e = clockv++;
			l->kept = !memcmp(t->a.src, txt[k], (tlen[k] + 1) * 4) && !memcmp(t->a.src8, u8[k], ulen[k] + 1);
			continue;
		}
		if (!((x & 8) ? atbuf(f, k, v, &t->a) : atro(f, k, v, &t->a))) { t->badf = f; t->badk = k; t->badv = v; stop_ = 1; break; }
	}
	return 0;
}
static void freerunning(int nth, long n, bool log)
{
	struct ft *t = calloc(nth, sizeof *t);
	for (int i = 0; i < nth; i++) { t[i].a = mkarena(); t[i].r0 = rnd() | 1; t[i].r1 = rnd() | 1; t[i].n = n; if (log) t[i].lg = calloc(n, sizeof(struct lg)); }
	for (int i = 0; i < nth; i++) { pthread_create(&t[i].p, 0, freethread, &t[i]); }
	for (int i = 0; i < nth; i++) pthread_join(t[i].p, 0);
	cur_what = "threads running freely";
	for (int i = 0; i < nth; i++) { if (t[i].badf >= 0) wrong("result or source differs", t[i].badf, t[i].badk, t[i].badv); }
	if (log) for (int i = 0; i < nth; i++) for (long j = 0; j < n; j++) {
		struct lg *l = &t[i].lg[j];
		printf("SAMPLE [%d,%ld,%ld,%d,\"%llx\",\"%llx\",%d,\"%s\"]\n", i + 1, l->b, l->e, l->c, (unsigned long long)l->h,
		       (unsigned long long)(&fresh[0][0][0])[l->c], l->kept, fname[l->c / NVAR / NTXT]);
	}
	cases += nth * n; calls = cases;
}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
void __tsan_on_report(void *r)
{
	static const char m[] = "\nFAIL {\"kind\":\"data race\",\"what\":\"ThreadSanitizer\"}\nDONE\n";
	(void)r;
	syscall(SYS_write, 1, m, sizeof m - 1);
	syscall(SYS_exit_group, 1);
}
#endif
#endif

int main(int argc, char **argv)
{
	if (argc < 6) return 9;
	const char *mode = argv[1]; long arg = atol(argv[2]); size_t shard = atoi(argv[3]), nshard = atoi(argv[4]);
	h_init(strtoul(argv[5], 0, 10) * 7919 + 17 * shard + mode[0]);
	corpus(); freshall();
	struct arena a = mkarena();
	if (!strcmp(mode, "history")) {
		cur_what = "after other calls";
		/* f x, g y, f x: all pairs of functions, at one address */
		for (int f = 0; f < NFN; f++) for (int g = 0; g < NFN; g++) for (int j = 0; j < 24; j++) {
			int x = rn(nshort), y = rn(2) ? (x + 1) % nshort : rn(rn(20) ? nshort : ntxt), v = rn(NVAR), w = rn(NVAR);
			for (int i = 0; i < 2; i++) {
				if (!atbuf(f, x, v, &a)) wrong("result or source differs", f, x, v);
				if (!atbuf(g, y, w, &a)) wrong("result or source differs", g, y, w);
				if (!atbuf(f, y, v, &a)) wrong("result or source differs", f, y, v);
			}
			cases++; calls += 6;
		}
		/* the same call very often, another one afterwards */
		for (int f = shard; f < NFN; f += nshard) {
			int x = rn(nshort);
			for (long i = 0; i < arg; i++) { if (!atro(f, x, 0, &a)) { wrong("result or source differs", f, x, 0); break; } calls++; }
			for (int y = 0; y < nshort; y++) if (!atro(f, y, 0, &a)) wrong("result or source differs", f, y, 0);
			cases++;
		}
		/* long random histories */
		for (long i = 0; i < arg; i++) {
			int f = rn(NFN), k = rn(60) ? rn(nshort) : rn(ntxt), v = rn(NVAR);
			if (!((i & 1) ? atbuf(f, k, v, &a) : atro(f, k, v, &a))) wrong("result or source differs", f, k, v);
			calls++;
		}
		cases++;
	} else if (!strcmp(mode, "schedule")) {
		struct sigaction sa; memset(&sa, 0, sizeof sa);
		sa.sa_sigaction = onstep; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
		cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(shard % 64, &cs); sched_setaffinity(0, sizeof cs, &cs);
		for (int i = 1; i <= 3; i++) ths[i].a = mkarena(), ths[i].f = -1;
		FILE *in = fopen(argv[6], "r"); if (!in) return 9;
		static char line[4096]; long no = 0; bool mapok = false;
		while (fgets(line, sizeof line, in)) {
			no++;
			if ((size_t)(no % nshard) != shard) continue;
			if (arg > 1 && rn(arg)) continue;
			nev = 0; int nth = 0;
			for (char *p = strtok(line, " \n"); p; p = strtok(0, " \n")) {
				evs[nev].t = p[0] - '0'; evs[nev].kind = p[1]; if (evs[nev].t > nth) nth = evs[nev].t;
				if (p[1] == 'b') evs[nev].f = p[2] == 'g', evs[nev].x = p[3] == 'y';
				nev++;
			}
			/* concrete functions and texts, kept for some histories; the texts are often neighbours */
			for (int tries = 0; !(no / nshard % 24) || !mapok; tries++) {
				mapf[0] = rn(NFN); do mapf[1] = rn(NFN); while (mapf[1] == mapf[0]);
				mapx[0] = rn(nshort); mapx[1] = rn(3) ? (mapx[0] / 3 * 3 + rn(3)) : rn(nshort); mapv = rn(NVAR);
				if (mapx[1] == mapx[0]) mapx[1] = (mapx[0] + 1) % nshort;
				mapok = true;
				for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (tlen[mapx[j]] > 8) mapok = false;
				if (!mapok) continue;
				for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
					measure(mapf[i], mapx[j], mapv);
					if (steps[mapf[i]][mapx[j]][mapv] > 8000) mapok = false;
				}
				if (mapok || tries > 1000) break;
			}
			schedule(nth);
			calls += nth;
		}
		printf("STAT instructions %lu\nSTAT blocked %ld\n", (unsigned long)progress, blocked);
	} else if (!strcmp(mode, "free")) {
		freerunning(4, arg, false);
	} else if (!strcmp(mode, "sweep")) {
		cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(shard % 64, &cs); sched_setaffinity(0, sizeof cs, &cs);
		sweeps(arg);
	} else if (!strcmp(mode, "record")) {
		freerunning(3, arg, true);
	} else return 9;
	done();
}

/* Common part of the conformance drivers: reproducible random numbers,
 * failure reports, crash and hang reports, guarded buffers. */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "grapheme.h"

#ifndef TXTCAP
#define TXTCAP 600
#endif
typedef uint_least32_t cp_t;

static uint64_t rs[2] = { 0x9E3779B97F4A7C15u, 1 };
static inline uint64_t rnd(void)
{
	uint64_t a = rs[0], b = rs[1];
	rs[0] = b;
	a ^= a << 23;
	rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return rs[1] + b;
}
static inline size_t rn(size_t n) { return n ? rnd() % n : 0; }
static void seed(uint64_t s)
{
	rs[0] = s * 0x9E3779B97F4A7C15u + 1; rs[1] = s ^ 0xD1B54A32D192ED03u;
	for (int i = 0; i < 20; i++) rnd();
}

/* the case being executed, for crash and hang reports */
static const char *cur_fn = "";
static const char *cur_what = "";
static const void *cur_txt; static size_t cur_len; static int cur_w; /* 1: bytes, 4: cps */
static size_t cur_arg = 0;
static volatile uint64_t cases = 0, calls = 0;
static int nfail = 0;

static void put_txt(const void *t, size_t n, int w)
{
	size_t m = n > TXTCAP ? TXTCAP : n;
	printf("[");
	for (size_t i = 0; i < m; i++)
		printf("%s%lu", i ? "," : "", w == 1 ? (unsigned long)((const unsigned char *)t)[i]
		                                     : (unsigned long)((const cp_t *)t)[i]);
	printf("]");
}
static void done(void)
{
	printf("STAT cases %lu\nSTAT calls %lu\nDONE\n", (unsigned long)cases, (unsigned long)calls);
	fflush(stdout);
	_exit(nfail ? 1 : 0);
}
/* FAIL line; extra is the inside of a JSON object */
static void fail(const char *kind, const char *fmt, ...)
{
	va_list ap;
	printf("FAIL {\"kind\":\"%s\",\"fn\":\"%s\",\"what\":\"%s\",\"unit\":%d,\"len\":%lu,\"arg\":%ld,\"text\":",
	       kind, cur_fn, cur_what, cur_w, (unsigned long)cur_len, (long)cur_arg);
	put_txt(cur_txt, cur_txt ? cur_len : 0, cur_w);
	if (fmt && *fmt) { printf(","); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); }
	printf("}\n");
	fflush(stdout);
	if (++nfail >= 25) done();
}
static void onsig(int s)
{
	fail(s == SIGVTALRM || s == SIGALRM ? "hang" : "crash", "\"signal\":%d", s);
	done();
}
static uint64_t lastcases = ~(uint64_t)0; static int stuck = 0;
static void ontick(int s)
{
	if (calls + cases == lastcases) { if (++stuck >= 13) onsig(s); }
	else stuck = 0, lastcases = calls + cases;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
void __asan_set_death_callback(void (*)(void));
static void ondeath(void) { fail("sanitizer", "\"signal\":0"); done(); }
#endif
#endif
static void h_init(uint64_t s)
{
	static char alt[65536];
	stack_t st = { .ss_sp = alt, .ss_size = sizeof alt };
	struct sigaction sa; struct itimerval it = { { 5, 0 }, { 5, 0 } };
	seed(s);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	sigaltstack(&st, NULL);
	memset(&sa, 0, sizeof sa); sa.sa_flags = SA_ONSTACK;
	sa.sa_handler = onsig;
#ifdef HAVE_ASAN
	__asan_set_death_callback(ondeath);
#else
	sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0);
	sigaction(SIGFPE, &sa, 0); 
#endif
	sigaction(SIGABRT, &sa, 0);
	sa.sa_handler = ontick; sigaction(SIGVTALRM, &sa, 0);
	setitimer(ITIMER_VIRTUAL, &it, NULL);
}

/* a buffer whose end (or start) touches inaccessible pages */
struct guard { unsigned char *base, *lo, *hi; size_t cap; };
static struct guard g_new(size_t cap)
{
	struct guard g; size_t pg = 4096, n = (cap + pg - 1) / pg * pg;
	g.base = mmap(0, n + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g.base == MAP_FAILED) { perror("mmap"); exit(9); }
	mprotect(g.base + pg, n, PROT_READ | PROT_WRITE);
	g.lo = g.base + pg; g.hi = g.lo + n; g.cap = n;
	return g;
}
/* text of n units ending exactly at the inaccessible page */
static void *g_put(struct guard *g, const void *t, size_t n, size_t w)
{
	void *p = g->hi - n * w;
	if (n) memcpy(p, t, n * w);
	return p;
}

/* Huge lengths.  far(w): a mapping that really has more than 2^32 units of w bytes, all zero,
 * or NULL where the machine does not give one.  FAULTS(x): whether executing x runs into the
 * inaccessible page (a function whose result depends on the whole of a text it was told to be
 * huge has to; one that returns has left a part of the text out). */
static const size_t hugelens[] = { ((size_t)1 << 31) - 1, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 33) };
#define NHUGE 5
static size_t hugelen(size_t k, size_t small) { return hugelens[k % NHUGE] + k / NHUGE % (small + 1); }
static void *far_(size_t w)
{
	static void *m[5];
	if (!m[w]) {
		m[w] = mmap(0, (((size_t)1 << 33) + (1 << 20)) * w, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m[w] == MAP_FAILED) { printf("STAT huge_mapping_refused 1\n"); m[w] = NULL; return NULL; }
	}
	return m[w];
}
static sigjmp_buf fault_env; static volatile int fault_on = 0;
static void onfault(int s) { if (fault_on) siglongjmp(fault_env, 1); onsig(s); }
static void fault_init(void)
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_ONSTACK; sa.sa_handler = onfault;
	sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
}
#define FAULTS(x) (sigsetjmp(fault_env, 1) ? (fault_on = 0, true) : (fault_on = 1, (x), fault_on = 0, false))

/* plain reference encoder used to write test inputs */
static size_t enc(cp_t c, unsigned char *o)
{
	if (c < 0x80) { o[0] = c; return 1; }
	if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
	o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
	return 4;
}
/* codepoints of one or two small neighbourhoods (scripts, blocks, ASCII) and a few others: texts as they
 * occur, in which whole runs fall into the ranges an implementation might treat specially */
static struct { cp_t base[3], width[3]; int n; } win;
static void window(void)
{
	static const cp_t at[] = { 0, 0, 0x20, 0x30, 0x41, 0x61, 0x80, 0xA0, 0x100, 0x180, 0x2B0, 0x300, 0x370, 0x400, 0x530, 0x590, 0x5D0, 0x600, 0x660,
		0x700, 0x900, 0x93E, 0xA80, 0xE00, 0xE30, 0xF00, 0x1000, 0x1100, 0x1160, 0x11A0, 0x13A0, 0x1780, 0x1AB0, 0x1C80, 0x1E00, 0x1F00, 0x1F80,
		0x2000, 0x2010, 0x2020, 0x2030, 0x2060, 0x20A0, 0x20D0, 0x2100, 0x2190, 0x2200, 0x2300, 0x2460, 0x2600, 0x2700, 0x2980, 0x2C00, 0x2D80, 0x2E00,
		0x2E80, 0x3000, 0x3040, 0x30A0, 0x3130, 0x3400, 0x4E00, 0xA640, 0xA720, 0xA980, 0xAB30, 0xAB70, 0xAC00, 0xD7A0, 0xD7F0, 0xF900, 0xFB00, 0xFB1D, 0xFB50,
		0xFE00, 0xFE20, 0xFE50, 0xFE70, 0xFF00, 0xFF61, 0xFFF0, 0x10000, 0x10400, 0x10800, 0x10C80, 0x10D00, 0x10E60, 0x11000, 0x16E40, 0x1B000, 0x1D165, 0x1D400,
		0x1D7CE, 0x1E900, 0x1EE00, 0x1F000, 0x1F1E6, 0x1F300, 0x1F3FB, 0x1F440, 0x1F600, 0x1F900, 0x20000, 0x30000, 0xE0000, 0xE0020, 0xE0100, 0x10FF00 };
	static const cp_t w[] = { 2, 10, 16, 26, 32, 64, 128, 256 };
	win.n = 1 + rn(3);
	for (int i = 0; i < win.n; i++) {
		win.base[i] = i == 0 && rn(4) == 0 ? 0x20 : rn(4) ? at[rn(sizeof at / sizeof *at)] : rn(0x10FF00);
		win.width[i] = w[rn(8)];
	}
}
static cp_t inwindow(void)                           /* never NUL, never a surrogate */
{
	static const cp_t more[] = { ' ', ' ', '\n', '\r', '.', ',', '-', '\'', '(', ')', '1', 'a', 'Z', 0x300, 0x308, 0x200D, 0xFE0F, 0x20E3, 0xAD, 0x2019, 0x3A3, 0x1F3FB };
	int i = rn(win.n);
	cp_t c = rn(9) == 0 ? more[rn(sizeof more / sizeof *more)] : win.base[i] + rn(win.width[i]);
	return c == 0 || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF) ? 'x' : c;
}
static long rdint(FILE *f)
{
	long v; 
	if (fscanf(f, "%ld", &v) != 1) { fprintf(stderr, "bad table file\n"); exit(9); }
	return v;
}
#endif

/* Conformance driver: interprets a script of API calls against the real libkripto and
 * writes one JSON line per call (the trace that the TLA+ specification validates).
 *
 * usage: driver SCRIPT TRACE      (options by environment: see main)
 *
 * Every episode (BEGIN..END) runs in a forked child, so that an abort, a sanitizer report,
 * a crash or a hang of the library becomes a "Crash" event instead of ending the run.
 *
 * All memory of the library comes from the allocator below (linked with --wrap=malloc ...):
 * blocks have guard zones, are filled with a pattern that depends on the episode, are never
 * reused after free, and are overwritten when freed; a chosen allocation can be made to fail.
 * With -DUSE_ASAN the blocks come from AddressSanitizer's allocator instead (which detects
 * reads outside of the blocks), with the same accounting.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#include <kripto/memory.h>
#include <kripto/loadstore.h>
#include <kripto/rotate.h>
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/ae.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/pkcs7.h>
#include <kripto/random.h>
#include <kripto/version.h>
#include "prims.h"

/* ------------------------------------------------------------------ allocator */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);

struct hdr { size_t size; uint32_t magic; uint32_t state; struct hdr *prev; char pre[40]; };
#define MAGIC 0x4b524950u
#define POST 32
#define CANARY 0xC7
static char *arena, *arena_end, *arena_ptr;
static struct hdr *last;
static __thread int track;        /* inside a library call */
static __thread int inthread;     /* one of several threads (PAR) */
static int live, nalloc, fail_at, fail_hit, bad, nfreed;
static volatile unsigned long steps; /* instrumented builds: edges taken */
static char why[64];
static uint64_t fillseed = 0x9E3779B97F4A7C15ull;
static uint64_t freed_digest[4096]; static size_t freed_size[4096];
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;

static void flag(const char *w) { if(!bad) snprintf(why, sizeof why, "%s", w); bad++; }
static uint64_t rnd(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }

static uint64_t digest(const void *p, size_t n)
{
	uint64_t h = 14695981039346656037ull; const unsigned char *c = p;
	for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
#ifdef USE_COV
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc(void) { steps++; }
#endif
#ifdef USE_MSAN
void __msan_allocated_memory(const volatile void *, size_t); void __msan_unpoison(const volatile void *, size_t);
#endif
static void *take(size_t n)
{
	struct hdr *h;
	void *r;
	pthread_mutex_lock(&mtx);
	nalloc++;
	if(fail_at && nalloc == fail_at) { fail_hit = 1; pthread_mutex_unlock(&mtx); errno = ENOMEM; return 0; }
#ifdef USE_ASAN
	h = __real_malloc(sizeof(size_t) * 0 + (n ? n : 1));
	r = h;
	if(r) { uint64_t s = fillseed ^ (uint64_t)nalloc * 2654435761u; for(size_t i = 0; i < n; i++) ((unsigned char *)r)[i] = (unsigned char)(rnd(&s) >> 24); live++; }
#else
	size_t need = (sizeof(struct hdr) + n + POST + 31) & ~(size_t)15;
	if(n > (size_t)1 << 40 || arena_ptr + need > arena_end) { pthread_mutex_unlock(&mtx); errno = ENOMEM; return 0; }
	h = (struct hdr *)arena_ptr; arena_ptr += need;
	h->size = n; h->magic = MAGIC; h->state = 1; h->prev = last; last = h;
	memset(h->pre, CANARY, sizeof h->pre);
	r = h + 1;
	uint64_t s = fillseed ^ (uint64_t)(n + 1) * 2654435761u ^ (uint64_t)((char *)h - arena);
	if(n < 65536) for(size_t i = 0; i < n; i++) ((unsigned char *)r)[i] = (unsigned char)(rnd(&s) >> 24);
	else memset(r, (int)(s >> 13) | 1, n);
	memset((char *)r + n, CANARY, POST);
#ifdef USE_MSAN
	__msan_allocated_memory(r, n);
#endif
	live++;
#endif
	pthread_mutex_unlock(&mtx);
	return r;
}
static int canaries_ok(struct hdr *h)
{
	for(size_t i = 0; i < sizeof h->pre; i++) if((unsigned char)h->pre[i] != CANARY) return 0;
	for(size_t i = 0; i < POST; i++) if(((unsigned char *)(h + 1))[h->size + i] != CANARY) return 0;
	return 1;
}
static void give(void *p)
{
	if(!p) return;
	pthread_mutex_lock(&mtx);
#ifdef USE_ASAN
	live--;
	__real_free(p);
#else
	struct hdr *h = (struct hdr *)p - 1;
	if((char *)h < arena || (char *)p > arena_ptr || ((uintptr_t)p & 15) || h->magic != MAGIC) { flag("free of a pointer that was not allocated"); goto out; }
	if(h->state != 1) { flag("double free"); goto out; }
	if(!canaries_ok(h)) flag("write outside of a heap block");
#ifdef USE_MSAN
	__msan_unpoison(p, h->size);
#endif
	if(nfreed < 4096) { freed_digest[nfreed] = digest(p, h->size); freed_size[nfreed] = h->size; nfreed++; }
	memset(p, 0xDD, h->size);
	h->state = 2;
	live--;
out:
#endif
	pthread_mutex_unlock(&mtx);
}
static void heap_check(int final)
{
#ifndef USE_ASAN
	for(struct hdr *h = last; h; h = h->prev)
	{
		if(!canaries_ok(h)) { flag("write outside of a heap block"); return; }
		if(final && h->state == 2)
			for(size_t i = 0; i < h->size; i++)
				if(((unsigned char *)(h + 1))[i] != 0xDD) { flag("write to freed memory"); return; }
	}
#else
	(void)final;
#endif
}

#ifdef USE_TSAN
#define track 0
#endif
void *__wrap_malloc(size_t n) { return track ? take(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
	if(!track) return __real_calloc(a, b);
	if(b && a > (size_t)-1 / b) return 0;
	void *p = take(a * b); if(p) memset(p, 0, a * b); return p;
}
static int ours(void *p)
{
#ifdef USE_ASAN
	(void)p; return track;
#else
	return (char *)p >= arena && (char *)p < arena_end;
#endif
}
void __wrap_free(void *p) { if(ours(p)) give(p); else if(track && p) flag("free of a pointer that was not allocated"); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n)
{
	if(!track) return __real_realloc(p, n);
#ifdef USE_ASAN
	if(!p) return take(n);
	nalloc++; if(fail_at && nalloc == fail_at) { fail_hit = 1; return 0; }
	return __real_realloc(p, n);
#else
	void *q = take(n);
	if(q && p) { size_t m = ((struct hdr *)p - 1)->size; memcpy(q, p, m < n ? m : n); give(p); }
	return q;
#endif
}
int __wrap_posix_memalign(void **p, size_t a, size_t n) { (void)a; *p = __wrap_malloc(n); return *p ? 0 : ENOMEM; }
void *__wrap_aligned_alloc(size_t a, size_t n) { (void)a; return __wrap_malloc(n); }
#undef track

/* -------------------------------------------------------- guarded data buffers */
#define NBUF 6
#define BUFPAGES 1024            /* 4 MiB each */
static __thread unsigned char *bufbase[NBUF]; static size_t bufsz;
struct buf { unsigned char *p, *base; size_t n; uint64_t d; int i; };
static __thread unsigned align_off;

static struct buf mkbuf(int i, const void *src, size_t n)
{
	struct buf b;
	/* the buffer ends align_off bytes before an inaccessible page */
	unsigned a = align_off;
	size_t sz = bufsz; b.base = bufbase[i];
	if(n + a > bufsz)
	{
		/* a huge buffer has pages of its own, for the rest of the episode */
		sz = (n + a + 4095) / 4096 * 4096;
		b.base = mmap(0, sz + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(b.base == MAP_FAILED || mprotect(b.base, sz, PROT_READ | PROT_WRITE)) { fprintf(stderr, "no memory for a buffer\n"); _exit(77); }
	}
	b.i = i; b.n = n; b.p = b.base + sz - n - a;
	size_t lead = b.p - b.base < 96 ? (size_t)(b.p - b.base) : 96;
	memset(b.p - lead, 0x5A, lead);
	memset(b.p + n, 0x5A, a);
	if(src) memcpy(b.p, src, n);
	else { uint64_t s = fillseed + i + n; for(size_t k = 0; k < n; k++) b.p[k] = (unsigned char)(rnd(&s) >> 21); }
	b.d = digest(b.p, n);
	return b;
}
static void chk(struct buf b, int cnst)
{
	size_t lead = b.p - b.base < 96 ? (size_t)(b.p - b.base) : 96;
	for(size_t k = 1; k <= lead; k++) if(b.p[-(long)k] != 0x5A) { flag("write before the start of a caller's buffer"); break; }
	for(size_t k = 0; k < align_off; k++) if(b.p[b.n + k] != 0x5A) { flag("write past the end of a caller's buffer"); break; }
	if(cnst && digest(b.p, b.n) != b.d) flag("const input was modified");
}

/* ------------------------------------------------------------------- output */
static int tracefd;
static __thread char *ob; static __thread size_t on;
#define OBSZ ((size_t)1 << 22)
/* outputs of the episode: $0 is the latest; slots $a..$z are set by LET */
struct val { unsigned char *p; size_t n; };
static __thread struct val outs[256]; static __thread unsigned nouts; static __thread struct val slot[26];
static void keep(struct val *v, const void *p, size_t n) { v->p = __real_realloc(v->p, n + 1); memcpy(v->p, p, n); v->n = n; }
static void put(const char *f, ...)
{
	va_list ap; va_start(ap, f);
	on += (size_t)vsnprintf(ob + on, OBSZ - on, f, ap);
	va_end(ap);
	if(on >= OBSZ) { fprintf(stderr, "event too long\n"); _exit(77); }
}
static void puthex(const char *k, const void *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	put(",\"%s\":\"", k);
	if(k[0] == 'o' && !k[1]) keep(&outs[nouts++ % 256], p, n);
	if(on + 2 * n + 64 > OBSZ) { fprintf(stderr, "event too long\n"); _exit(77); }
	for(size_t i = 0; i < n; i++) { ob[on++] = d[((const unsigned char *)p)[i] >> 4]; ob[on++] = d[((const unsigned char *)p)[i] & 15]; }
	ob[on++] = '"'; ob[on] = 0;
}
static void putzeros(const char *k, size_t n)
{
	put(",\"%s\":\"", k);
	if(on + 2 * n + 64 > OBSZ) { fprintf(stderr, "event too long\n"); _exit(77); }
	memset(ob + on, 48, 2 * n); on += 2 * n; ob[on++] = 34; ob[on] = 0;
}
static void flush_ev(void)
{
	size_t w = 0;
	if(inthread) return;
	while(w < on) { ssize_t k = write(tracefd, ob + w, on - w); if(k <= 0) _exit(77); w += (size_t)k; }
	on = 0;
}

/* ------------------------------------------------------------------- script */
static __thread char *tok[64]; static __thread int nt;
static __thread unsigned char *argbuf[64]; static __thread size_t arglen[64];
static int hexval(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* value: terms joined by '+'; a term is hex, or $k / $a (an earlier output or slot),
 * optionally .from.to (bytes) and ~bit (that bit flipped) */
static size_t term(const char *t, size_t l, unsigned char *d)
{
	if(t[0] != '$')
	{
		if(t[0] == '-') return 0;
		if(d) for(size_t k = 0; k < l / 2; k++) d[k] = (unsigned char)(hexval(t[2*k]) * 16 + hexval(t[2*k+1]));
		return l / 2;
	}
	struct val *v; char *e;
	if(t[1] >= 'a' && t[1] <= 'z') { v = &slot[t[1] - 'a']; e = (char *)t + 2; }
	else { unsigned k = (unsigned)strtoul(t + 1, &e, 10); static struct val none; v = k < nouts ? &outs[(nouts - 1 - k) % 256] : &none; }
	size_t a = 0, b = v->n;
	if(*e == '.') { a = strtoul(e + 1, &e, 10); b = strtoul(e + 1, &e, 10); if(b > v->n) b = v->n; if(a > b) a = b; }
	if(d)
	{
		if(b > a) memcpy(d, v->p + a, b - a);
		if(*e == '~' && b > a) { size_t f = strtoul(e + 1, &e, 10) % ((b - a) * 8); d[f / 8] ^= (unsigned char)(1 << f % 8); }
	}
	return b - a;
}
static void argv_(const char *s, unsigned char **p, size_t *n)
{
	for(int pass = 0; pass < 2; pass++)
	{
		size_t o = 0; const char *t = s;
		for(;;)
		{
			const char *e = strchr(t, '+'); size_t l = e ? (size_t)(e - t) : strlen(t);
			o += term(t, l, pass ? *p + o : 0);
			if(!e) break;
			t = e + 1;
		}
		if(!pass) *p = __real_realloc(*p, o + 1);
		*n = o;
	}
}
static void arg(int i) { argv_(i < nt ? tok[i] : "-", &argbuf[i], &arglen[i]); }
static long num(int i) { return i < nt ? strtol(tok[i], 0, 0) : 0; }

#define MAXH 32
static __thread void *H[MAXH]; static __thread char HT[MAXH];
static struct { char name[256]; void *d; } dc[1024]; static int ndc;

/* descriptors of composed primitives are made once per episode, outside of the accounting */
static const void *desc(char kind, const char *name)
{
	char in[256];
	for(int i = 0; i < ndc; i++) if(dc[i].name[0] == kind && !strcmp(dc[i].name + 1, name)) return dc[i].d;
	const char *p = strchr(name, '(');
	void *d = 0;
	if(!p)
	{
		const struct prim *t = kind == 'b' ? p_block : kind == 'h' ? p_hash : kind == 'm' ? p_mac : p_stream;
		for(; t->name; t++) if(!strcmp(t->name, name)) return *(const void *const *)t->d;
		if(kind == 'b' && !strcmp(name, "gost_cbr")) d = kripto_block_gost_cbr();
		else if(kind == 'b' && !strcmp(name, "gost_r34")) d = kripto_block_gost_r34_12_2015();
		else { fprintf(stderr, "unknown primitive %c %s\n", kind, name); _exit(78); }
	}
	else
	{
		size_t l = strlen(p + 1); char a[256], b[256], *c = 0;
		memcpy(in, p + 1, l - 1); in[l - 1] = 0;
		int depth = 0;
		for(char *q = in; *q; q++) { if(*q == '(') depth++; if(*q == ')') depth--; if(*q == ',' && !depth) { c = q; break; } }
		if(c) { *c = 0; strcpy(a, in); strcpy(b, c + 1); } else strcpy(a, in);
#define IS(n) (!strncmp(name, n "(", sizeof n))
		if(kind == 's')
		{
			const kripto_desc_block *k = desc('b', a);
			d = IS("cbc") ? kripto_stream_cbc(k) : IS("cfb") ? kripto_stream_cfb(k) : IS("ctr") ? kripto_stream_ctr(k) :
				IS("ecb") ? kripto_stream_ecb(k) : IS("ofb") ? kripto_stream_ofb(k) : 0;
		}
		else if(kind == 'm')
			d = IS("hmac") ? kripto_mac_hmac(desc('h', a)) : IS("omac") ? kripto_mac_omac(desc('b', a)) :
				IS("xcbc") ? kripto_mac_xcbc(desc('b', a)) : 0;
		else if(kind == 'a')
			d = IS("eax") ? kripto_ae_eax(desc('b', a)) : kripto_ae_eax2(desc('s', a), desc('m', b));
		else if(kind == 'b' && IS("gost"))
		{
			static unsigned char sb[8][16];
			for(int i = 0; i < 128; i++) sb[i / 16][i % 16] = (unsigned char)hexval(a[i]);
			d = kripto_block_gost((const unsigned char (*)[16])sb);
		}
		if(!d) { fprintf(stderr, "unknown primitive %s\n", name); _exit(78); }
	}
	if(ndc == 1024) { fprintf(stderr, "too many descriptors\n"); _exit(77); }
	snprintf(dc[ndc].name, sizeof dc[ndc].name, "%c%s", kind, name); dc[ndc].d = d; ndc++;
	return d;
}

static int cpu_limit = 25;
static void arm(int on_)
{
	struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = on_ ? cpu_limit : 0;
	setitimer(ITIMER_PROF, &t, 0);
}
static __thread unsigned long steps0, steps1;
static void enter(void) { if(!inthread) { nalloc = 0; fail_hit = 0; nfreed = 0; arm(1); } steps0 = steps; track = 1; }
static void leave(void) { track = 0; steps1 = steps; if(inthread) return; arm(0); heap_check(0); }
static int logfreed;
static void tail(int ok)
{
	if(inthread) { put(",\"ok\":%d,\"live\":-1,\"bad\":0,\"na\":0,\"ft\":0}\n", ok); align_off = 0; return; }
	put(",\"ok\":%d,\"live\":%d,\"bad\":%d,\"na\":%d,\"ft\":%d", ok, live, bad, nalloc, fail_hit);
#ifdef USE_COV
	put(",\"steps\":%lu", steps1 - steps0);
#endif
	if(bad) put(",\"why\":\"%s\"", why);
	if(logfreed)
	{
		put(",\"freed\":[");
		for(int i = 0; i < nfreed; i++) put("%s\"%zu:%016llx\"", i ? "," : "", freed_size[i], (unsigned long long)freed_digest[i]);
		put("]");
	}
	put("}\n");
	flush_ev();
	fail_at = 0; align_off = 0;
}
static struct { volatile int line; } *shared;
static int lineno;

#include "driver_ops.h"

static char *script; static char *cur;
static char *nextline(void)
{
	if(!*cur) return 0;
	char *s = cur, *e = strchr(cur, '\n');
	if(e) { *e = 0; cur = e + 1; } else cur += strlen(cur);
	lineno++;
	return s;
}
static void onprof(int s) { (void)s; static const char m[] = "CPU limit\n"; if(write(2, m, sizeof m - 1)) {} _exit(99); }

static void split(char *s) { char *q; nt = 0; for(char *p = strtok_r(s, " ", &q); p && nt < 64; p = strtok_r(0, " ", &q)) tok[nt++] = p; }

/* calls on an object that could not be made are left out */
static int dead(void)
{
	char k = tok[0][0], c = tok[0][1];
	if(k == 'D' || k == 'W' || k == 'P' || k == 'Q' || k == 'V') return 0;
	if(!strcmp(tok[0], "SY") || !strcmp(tok[0], "RF") || !strcmp(tok[0], "RN") || !strcmp(tok[0], "RP") || !strcmp(tok[0], "RS")) return 0;
	if(c == 'C' || c == 'A' || c == 'M') return 0;
	long h = num(1); return h < 0 || h >= MAXH || !H[h];
}

static void mapbufs(void)
{
	ob = __real_malloc(OBSZ);
	for(int i = 0; i < NBUF; i++)
	{
		bufbase[i] = mmap(0, bufsz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(bufbase[i] + bufsz, 4096, PROT_NONE);
	}
}
/* one line; 0: end of the episode */
static int line(char *s)
{
	split(s);
	if(!nt) return 1;
	if(!strcmp(tok[0], "END")) return 0;
	else if(!strcmp(tok[0], "F")) { if(!inthread) fail_at = (int)num(1); }
	else if(!strcmp(tok[0], "ALIGN")) align_off = (unsigned)num(1);
	else if(!strcmp(tok[0], "FILL")) fillseed = strtoull(tok[1], 0, 16) | 1;
	else if(!strcmp(tok[0], "LET")) { arg(2); keep(&slot[tok[1][0] - 'a'], argbuf[2], arglen[2]); }
	else if(!dead()) run_op();
	return 1;
}
/* PAR ... ENDPAR: lines "@k call" are made by thread k (handles and outputs are per thread) */
#define MAXT 16
static char *tl[MAXT][4096]; static int ntl[MAXT]; static char *tout[MAXT]; static size_t toutn[MAXT];
static pthread_barrier_t barr;
static void *thr(void *a)
{
	int k = (int)(intptr_t)a;
	inthread = 1; mapbufs();
	pthread_barrier_wait(&barr);
	for(int i = 0; i < ntl[k]; i++) line(tl[k][i]);
	tout[k] = ob; toutn[k] = on;
	return 0;
}
static char *nextline(void);
static void par(void)
{
	char *s; int n = 0; pthread_t t[MAXT];
	memset(ntl, 0, sizeof ntl);
	while((s = nextline()) && strcmp(s, "ENDPAR"))
	{
		int k = atoi(s + 1); if(k + 1 > n) n = k + 1;
		s = strchr(s, ' ') + 1;
		/* make the descriptors of composed primitives beforehand */
		char *c = strdup(s); split(c);
		if(nt > 2 && strchr(tok[2], '(') && strchr("CA", tok[0][1])) desc(tok[0][0] | 32, tok[2]);
		else if(nt > 2 && strchr("CA", tok[0][1]) && tok[0][0] != 'P') { if(tok[0][0] != 'A') desc(tok[0][0] | 32, tok[2]); }
		else if(nt > 1 && (!strcmp(tok[0], "PB") || !strcmp(tok[0], "SY"))) desc('m', tok[1]);
		free(c);
		tl[k][ntl[k]++] = s;
	}
	pthread_barrier_init(&barr, 0, (unsigned)n);
	alarm(300);
	for(int k = 0; k < n; k++) pthread_create(&t[k], 0, thr, (void *)(intptr_t)k);
	for(int k = 0; k < n; k++) pthread_join(t[k], 0);
	alarm(300);
	for(int k = 0; k < n; k++)
	{
		put("{\"op\":\"Thread\",\"x\":%d}\n", k); flush_ev();
		char *o = ob; ob = tout[k]; on = toutn[k]; flush_ev(); ob = o;
	}
	put("{\"op\":\"EndThreads\",\"live\":%d}\n", live); flush_ev();
}
static void episode(void)
{
	char *s;
	signal(SIGPROF, onprof);
	alarm(300);
	while((s = nextline()))
	{
		shared->line = lineno;
		if(!strcmp(s, "PAR")) { par(); continue; }
		if(!line(s)) break;
	}
	heap_check(1);
	put("{\"op\":\"End\",\"live\":%d,\"bad\":%d", live, bad);
	if(bad) put(",\"why\":\"%s\"", why);
	put("}\n"); flush_ev();
	_exit(0);
}

int main(int argc, char **argv)
{
	if(argc != 3) return 77;
	logfreed = getenv("LOG_FREED") != 0;
	if(getenv("CPU_LIMIT")) cpu_limit = atoi(getenv("CPU_LIMIT"));
	size_t asz = (getenv("ARENA_MB") ? (size_t)atoi(getenv("ARENA_MB")) : 512) << 20;
	FILE *f = fopen(argv[1], "r"); if(!f) return 77;
	fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
	script = __real_malloc((size_t)n + 1); if(fread(script, 1, (size_t)n, f) != (size_t)n) return 77; script[n] = 0; fclose(f);
	tracefd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if(tracefd < 0) return 77;
	shared = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifndef USE_ASAN
	arena = mmap(0, asz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(arena == MAP_FAILED) return 77;
	arena_ptr = arena; arena_end = arena + asz;
#else
	(void)asz;
#endif
	bufsz = BUFPAGES * 4096;
	mapbufs();
	cur = script;
	char *s;
	while((s = nextline()))
	{
		if(strncmp(s, "BEGIN", 5)) continue;
		const char *id = s[5] ? s + 6 : "", *c = strchr(id, ':');
		put("{\"op\":\"Begin\",\"id\":\"%s\",\"g\":\"%.*s\"}\n", id, c ? (int)(c - id) : 0, id); flush_ev();
		/* after an episode that did not end, others get less time; after several they are left out */
		static int hangs;
		if(hangs == 1 && cpu_limit > 4) cpu_limit = 4;
		if(hangs > 2)
		{
			put("{\"op\":\"End\",\"live\":0,\"bad\":0}\n"); flush_ev();
			while((s = nextline())) if(!strncmp(s, "END", 3)) break;
			continue;
		}
		time_t t0 = time(0);
		pid_t p = fork();
		if(p < 0) return 77;
		if(p == 0) episode();
		int st; waitpid(p, &st, 0);
		if(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) return WEXITSTATUS(st);
		if(!WIFEXITED(st) || WEXITSTATUS(st))
		{
			put("{\"op\":\"Crash\",\"line\":%d,\"sig\":%d,\"code\":%d}\n", shared->line,
				WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
			flush_ev();
			if(time(0) - t0 >= cpu_limit) hangs++;
		}
		/* skip to the END of the episode in the parent */
		while((s = nextline())) if(!strncmp(s, "END", 3)) break;
	}
	return 0;
}

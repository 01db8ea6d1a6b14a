/* one function per family of calls; every event carries the arguments and the results */

static void putname(const char *n)
{
	/* name(inner) and eax2(stream,mac) are logged as separate fields */
	const char *p = strchr(n, '(');
	if(!p) { put(",\"n\":\"%s\",\"b\":\"\"", n); return; }
	put(",\"n\":\"%.*s\"", (int)(p - n), n);
	char in[256]; size_t l = strlen(p + 1); memcpy(in, p + 1, l - 1); in[l - 1] = 0;
	int depth = 0; char *c = 0;
	for(char *q = in; *q; q++) { if(*q == '(') depth++; if(*q == ')') depth--; if(*q == ',' && !depth) { c = q; break; } }
	if(!c) { put(",\"b\":\"%s\"", in); return; }
	*c++ = 0;
	char *q = strchr(in, '(');
	if(q) { *q++ = 0; q[strlen(q) - 1] = 0; }
	put(",\"sn\":\"%s\",\"sb\":\"%s\"", in, q ? q : "");
	q = strchr(c, '(');
	if(q) { *q++ = 0; q[strlen(q) - 1] = 0; }
	put(",\"mn\":\"%s\",\"mb\":\"%s\"", c, q ? q : "");
}
/* n bytes of value v, read-only or (v < 0) to write to; the same megabyte over and over, ending before an inaccessible page */
static unsigned char *longmem(size_t n, int v)
{
	size_t mb = 1 << 20, tot = (n + mb - 1) / mb * mb + mb;
	int fd = memfd_create("long", 0);
	if(fd < 0 || ftruncate(fd, (off_t)mb)) _exit(77);
	unsigned char *a = mmap(0, mb, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if(a == MAP_FAILED) _exit(77);
	if(v >= 0) memset(a, v, mb);
	munmap(a, mb);
	a = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(a == MAP_FAILED) _exit(77);
	for(size_t i = 0; i + mb < tot; i += mb)
		if(mmap(a + i, mb, v >= 0 ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(77);
	close(fd);
	return a + (tot - mb - n);
}
static void longfree(unsigned char *p, size_t n)
{
	size_t mb = 1 << 20, tot = (n + mb - 1) / mb * mb + mb;
	munmap(p - (tot - mb - n), tot);
}
#define OP(x) (!strcmp(tok[0], x))
static void ev(int h) { put("{\"op\":\"%s\",\"h\":%d", tok[0], h); }
static void setobj(int h, void *p, char t) { H[h] = p; HT[h] = p ? t : 0; }
static void badscript(const char *w) { fprintf(stderr, "bad script line %d: %s\n", lineno, w); _exit(78); }
/* the pointer handed over for an empty optional input is null, as callers do */
static const void *opt(struct buf b) { return b.n ? b.p : 0; }

static void op_block(void)
{
	char c = tok[0][1]; int h = (int)num(1);
	if(c == 'C' || c == 'R')
	{
		int k = c == 'C' ? 4 : 3; arg(k);
		const kripto_desc_block *d = c == 'C' ? desc('b', tok[2]) : 0;
		struct buf key = mkbuf(0, argbuf[k], arglen[k]);
		unsigned r = (unsigned)num(k - 1);
		void *s; const void *od = c == 'R' ? kripto_block_getdesc(H[h]) : d;
		enter();
		if(c == 'C') s = kripto_block_create(d, r, key.p, (unsigned)key.n);
		else s = kripto_block_recreate(H[h], r, key.p, (unsigned)key.n);
		leave(); chk(key, 1);
		setobj(h, s, 'b');
		ev(h); if(c == 'C') putname(tok[2]);
		put(",\"r\":%u", r); puthex("k", argbuf[k], arglen[k]);
		put(",\"gd\":%d", s ? kripto_block_getdesc(s) == od : 1);
		tail(s != 0);
	}
	else if(c == 'T')
	{
		arg(2); struct buf t = mkbuf(0, argbuf[2], arglen[2]);
		enter(); kripto_block_tweak(H[h], t.p, (unsigned)t.n); leave(); chk(t, 1);
		ev(h); puthex("i", argbuf[2], arglen[2]); tail(1);
	}
	else if(c == 'E' || c == 'D')
	{
		arg(2); int ip = (int)num(3);
		unsigned bs = kripto_block_size(kripto_block_getdesc(H[h]));
		if(arglen[2] != bs) badscript("block length");
		struct buf in, out;
		if(ip) { out = mkbuf(0, argbuf[2], bs); in = out; } else { in = mkbuf(0, argbuf[2], bs); out = mkbuf(1, 0, bs); }
		enter();
		if(c == 'E') kripto_block_encrypt(H[h], in.p, out.p); else kripto_block_decrypt(H[h], in.p, out.p);
		leave(); if(!ip) chk(in, 1);
		chk(out, 0);
		ev(h); puthex("i", argbuf[2], bs); puthex("o", out.p, bs); tail(1);
	}
	else if(c == 'X') { enter(); kripto_block_destroy(H[h]); leave(); setobj(h, 0, 0); ev(h); tail(1); }
	else if(c == 'M')
	{
		const kripto_desc_block *d = desc('b', tok[2]);
		ev(0); putname(tok[2]);
		put(",\"bs\":%u,\"mk\":%u,\"mt\":%u", kripto_block_size(d), kripto_block_maxkey(d), kripto_block_maxtweak(d)); tail(1);
	}
	else badscript(tok[0]);
}

static void op_hash(void)
{
	char c = tok[0][1]; int h = (int)num(1);
	if(c == 'C' || c == 'R')   /* HC h name r salt outlen | HR h r salt outlen */
	{
		int k = c == 'C' ? 4 : 3; arg(k);
		const kripto_desc_hash *d = c == 'C' ? desc('h', tok[2]) : 0;
		struct buf salt = mkbuf(0, argbuf[k], arglen[k]);
		unsigned r = (unsigned)num(k - 1), ol = (unsigned)num(k + 1);
		const void *od = c == 'R' ? kripto_hash_getdesc(H[h]) : d; void *s;
		enter();
		if(c == 'C') s = kripto_hash_create(d, r, opt(salt), (unsigned)salt.n, ol);
		else s = kripto_hash_recreate(H[h], r, opt(salt), (unsigned)salt.n, ol);
		leave(); chk(salt, 1); setobj(h, s, 'h');
		ev(h); if(c == 'C') putname(tok[2]);
		put(",\"r\":%u,\"x\":%u", r, ol); puthex("k", argbuf[k], arglen[k]);
		put(",\"gd\":%d", s ? kripto_hash_getdesc(s) == od : 1); tail(s != 0);
	}
	else if(c == 'I')
	{
		arg(2); struct buf b = mkbuf(0, argbuf[2], arglen[2]);
		enter(); kripto_hash_input(H[h], b.p, b.n); leave(); chk(b, 1);
		ev(h); puthex("i", argbuf[2], arglen[2]); tail(1);
	}
	else if(c == 'Z')  /* HZ h e rest chunk : 2^e - 256 bytes (none if e is 0) and rest more, all of value 90, in chunks */
	{
		int e = (int)num(2); size_t rest = (size_t)num(3), ch = (size_t)strtoll(tok[4], 0, 0);
		size_t left = (e ? ((size_t)1 << e) - 256 : 0) + rest;
		if(ch > left) ch = left;
		unsigned char *p = longmem(ch, 90);
		enter(); while(left) { size_t m = left < ch ? left : ch; kripto_hash_input(H[h], p, m); left -= m; } leave(); longfree(p, ch);
		ev(h); put(",\"e\":%d,\"x\":%zu", e, rest); tail(1);
	}
	else if(c == 'O')
	{
		size_t n = (size_t)num(2); struct buf o = mkbuf(1, 0, n);
		enter(); kripto_hash_output(H[h], o.p, n); leave(); chk(o, 0);
		ev(h); put(",\"x\":%zu", n); puthex("o", o.p, n); tail(1);
	}
	else if(c == 'X') { enter(); kripto_hash_destroy(H[h]); leave(); setobj(h, 0, 0); ev(h); tail(1); }
	else if(c == 'A')  /* HA 0 name r salt in outlen */
	{
		arg(4); arg(5); const kripto_desc_hash *d = desc('h', tok[2]);
		struct buf salt = mkbuf(0, argbuf[4], arglen[4]), in = mkbuf(1, argbuf[5], arglen[5]);
		size_t n = (size_t)num(6); struct buf o = mkbuf(2, 0, n);
		enter(); int rc = kripto_hash_all(d, (unsigned)num(3), opt(salt), (unsigned)salt.n, in.p, in.n, o.p, n); leave();
		chk(salt, 1); chk(in, 1); chk(o, 0);
		ev(0); putname(tok[2]); put(",\"r\":%u,\"x\":%zu", (unsigned)num(3), n); puthex("k", argbuf[4], arglen[4]);
		puthex("i", argbuf[5], arglen[5]); puthex("o", o.p, n); tail(rc == 0);
	}
	else if(c == 'M')
	{
		const kripto_desc_hash *d = desc('h', tok[2]);
		ev(0); putname(tok[2]);
		put(",\"mo\":\"%u\",\"bs\":%u,\"ms\":\"%u\"", kripto_hash_maxout(d), kripto_hash_blocksize(d), kripto_hash_maxsalt(d)); tail(1);
	}
	else badscript(tok[0]);
}

static void op_mac(void)
{
	char c = tok[0][1]; int h = (int)num(1);
	if(c == 'C' || c == 'R')  /* MC h name r key taglen | MR h r key taglen */
	{
		int k = c == 'C' ? 4 : 3; arg(k);
		const kripto_desc_mac *d = c == 'C' ? desc('m', tok[2]) : 0;
		struct buf key = mkbuf(0, argbuf[k], arglen[k]);
		unsigned r = (unsigned)num(k - 1), tl = (unsigned)num(k + 1);
		const void *od = c == 'R' ? kripto_mac_getdesc(H[h]) : d; void *s;
		enter();
		if(c == 'C') s = kripto_mac_create(d, r, key.p, (unsigned)key.n, tl);
		else s = kripto_mac_recreate(H[h], r, key.p, (unsigned)key.n, tl);
		leave(); chk(key, 1); setobj(h, s, 'm');
		ev(h); if(c == 'C') putname(tok[2]);
		put(",\"r\":%u,\"x\":%u", r, tl); puthex("k", argbuf[k], arglen[k]);
		put(",\"gd\":%d", s ? kripto_mac_getdesc(s) == od : 1); tail(s != 0);
	}
	else if(c == 'I')
	{
		arg(2); struct buf b = mkbuf(0, argbuf[2], arglen[2]);
		enter(); kripto_mac_input(H[h], b.p, b.n); leave(); chk(b, 1);
		ev(h); puthex("i", argbuf[2], arglen[2]); tail(1);
	}
	else if(c == 'T')
	{
		unsigned n = (unsigned)num(2); struct buf o = mkbuf(1, 0, n);
		enter(); kripto_mac_tag(H[h], o.p, n); leave(); chk(o, 0);
		ev(h); put(",\"x\":%u", n); puthex("o", o.p, n); tail(1);
	}
	else if(c == 'V')  /* MV h taghex */
	{
		arg(2); struct buf b = mkbuf(0, argbuf[2], arglen[2]);
		enter(); int rc = kripto_mac_verify(H[h], b.p, (unsigned)b.n); leave(); chk(b, 1);
		ev(h); puthex("i", argbuf[2], arglen[2]); put(",\"v\":%d", rc != 0); tail(1);
	}
	else if(c == 'X') { enter(); kripto_mac_destroy(H[h]); leave(); setobj(h, 0, 0); ev(h); tail(1); }
	else if(c == 'A')  /* MA 0 name r key in taglen */
	{
		arg(4); arg(5); const kripto_desc_mac *d = desc('m', tok[2]);
		struct buf key = mkbuf(0, argbuf[4], arglen[4]), in = mkbuf(1, argbuf[5], arglen[5]);
		unsigned n = (unsigned)num(6); struct buf o = mkbuf(2, 0, n);
		enter(); int rc = kripto_mac_all(d, (unsigned)num(3), key.p, (unsigned)key.n, in.p, (unsigned)in.n, o.p, n); leave();
		chk(key, 1); chk(in, 1); chk(o, 0);
		ev(0); putname(tok[2]); put(",\"r\":%u,\"x\":%u", (unsigned)num(3), n); puthex("k", argbuf[4], arglen[4]);
		puthex("i", argbuf[5], arglen[5]); puthex("o", o.p, n); tail(rc == 0);
	}
	else if(c == 'M')
	{
		const kripto_desc_mac *d = desc('m', tok[2]);
		ev(0); putname(tok[2]); put(",\"mt\":\"%u\",\"mk\":\"%u\"", kripto_mac_maxtag(d), kripto_mac_maxkey(d)); tail(1);
	}
	else badscript(tok[0]);
}

static void op_stream(void)
{
	char c = tok[0][1]; int h = (int)num(1);
	if(c == 'C' || c == 'R')  /* SC h name r key iv | SR h r key iv */
	{
		int k = c == 'C' ? 4 : 3; arg(k); arg(k + 1);
		const kripto_desc_stream *d = c == 'C' ? desc('s', tok[2]) : 0;
		struct buf key = mkbuf(0, argbuf[k], arglen[k]), iv = mkbuf(1, argbuf[k+1], arglen[k+1]);
		unsigned r = (unsigned)num(k - 1);
		const void *od = c == 'R' ? kripto_stream_getdesc(H[h]) : d; void *s;
		enter();
		if(c == 'C') s = kripto_stream_create(d, r, key.p, (unsigned)key.n, opt(iv), (unsigned)iv.n);
		else s = kripto_stream_recreate(H[h], r, key.p, (unsigned)key.n, opt(iv), (unsigned)iv.n);
		leave(); chk(key, 1); chk(iv, 1); setobj(h, s, 's');
		ev(h); if(c == 'C') putname(tok[2]);
		put(",\"r\":%u", r); puthex("k", argbuf[k], arglen[k]); puthex("iv", argbuf[k+1], arglen[k+1]);
		put(",\"gd\":%d,\"mo\":%u", s ? kripto_stream_getdesc(s) == od : 1, s ? kripto_stream_multof(s) : 0); tail(s != 0);
	}
	else if(c == 'E' || c == 'D')  /* SE h in [inplace] */
	{
		arg(2); int ip = (int)num(3); size_t n = arglen[2];
		struct buf in, out;
		if(ip) { out = mkbuf(0, argbuf[2], n); in = out; } else { in = mkbuf(0, argbuf[2], n); out = mkbuf(1, 0, n); }
		enter();
		if(c == 'E') kripto_stream_encrypt(H[h], in.p, out.p, n); else kripto_stream_decrypt(H[h], in.p, out.p, n);
		leave(); if(!ip) chk(in, 1);
		chk(out, 0);
		ev(h); puthex("i", argbuf[2], n); puthex("o", out.p, n); tail(1);
	}
	else if(c == 'P')
	{
		size_t n = (size_t)num(2); struct buf o = mkbuf(1, 0, n);
		enter(); kripto_stream_prng(H[h], o.p, n); leave(); chk(o, 0);
		ev(h); put(",\"x\":%zu", n); putzeros("i", n); puthex("o", o.p, n); tail(1);
	}
	else if(c == 'K')  /* SK h count : skip count bytes of keystream through prng, in large chunks */
	{
		long long left = strtoll(tok[2], 0, 0); size_t ch = 1 << 16;
		static unsigned char sink[1 << 16];
		enter(); while(left > 0) { size_t m = left < (long long)ch ? (size_t)left : ch; kripto_stream_prng(H[h], sink, m); left -= (long long)m; } leave();
		ev(h); put(",\"z\":%s", tok[2]); tail(1);
	}
	else if(c == 'X') { enter(); kripto_stream_destroy(H[h]); leave(); setobj(h, 0, 0); ev(h); tail(1); }
	else if(c == 'M')
	{
		const kripto_desc_stream *d = desc('s', tok[2]);
		ev(0); putname(tok[2]); put(",\"mk\":\"%u\",\"mi\":\"%u\"", kripto_stream_maxkey(d), kripto_stream_maxiv(d)); tail(1);
	}
	else badscript(tok[0]);
}

static void op_ae(void)
{
	char c = tok[0][1]; int h = (int)num(1);
	if(c == 'C' || c == 'R')  /* AC h name r key iv taglen | AR h r key iv taglen */
	{
		int k = c == 'C' ? 4 : 3; arg(k); arg(k + 1);
		const kripto_desc_ae *d = c == 'C' ? desc('a', tok[2]) : 0;
		struct buf key = mkbuf(0, argbuf[k], arglen[k]), iv = mkbuf(1, argbuf[k+1], arglen[k+1]);
		unsigned r = (unsigned)num(k - 1), tl = (unsigned)num(k + 2);
		const void *od = c == 'R' ? kripto_ae_getdesc(H[h]) : d; void *s;
		enter();
		if(c == 'C') s = kripto_ae_create(d, r, key.p, (unsigned)key.n, opt(iv), (unsigned)iv.n, tl);
		else s = kripto_ae_recreate(H[h], r, key.p, (unsigned)key.n, opt(iv), (unsigned)iv.n, tl);
		leave(); chk(key, 1); chk(iv, 1); setobj(h, s, 'a');
		ev(h); if(c == 'C') putname(tok[2]);
		put(",\"r\":%u,\"x\":%u", r, tl); puthex("k", argbuf[k], arglen[k]); puthex("iv", argbuf[k+1], arglen[k+1]);
		put(",\"gd\":%d,\"mo\":%u", s ? kripto_ae_getdesc(s) == od : 1, s ? kripto_ae_multof(s) : 0); tail(s != 0);
	}
	else if(c == 'E' || c == 'D')
	{
		arg(2); int ip = (int)num(3); size_t n = arglen[2];
		struct buf in, out;
		if(ip) { out = mkbuf(0, argbuf[2], n); in = out; } else { in = mkbuf(0, argbuf[2], n); out = mkbuf(1, 0, n); }
		enter();
		if(c == 'E') kripto_ae_encrypt(H[h], in.p, out.p, n); else kripto_ae_decrypt(H[h], in.p, out.p, n);
		leave(); if(!ip) chk(in, 1);
		chk(out, 0);
		ev(h); puthex("i", argbuf[2], n); puthex("o", out.p, n); tail(1);
	}
	else if(c == 'H')
	{
		arg(2); struct buf b = mkbuf(0, argbuf[2], arglen[2]);
		enter(); kripto_ae_header(H[h], b.p, b.n); leave(); chk(b, 1);
		ev(h); puthex("i", argbuf[2], arglen[2]); tail(1);
	}
	else if(c == 'T')
	{
		unsigned n = (unsigned)num(2); struct buf o = mkbuf(1, 0, n);
		enter(); kripto_ae_tag(H[h], o.p, n); leave(); chk(o, 0);
		ev(h); put(",\"x\":%u", n); puthex("o", o.p, n); tail(1);
	}
	else if(c == 'V')
	{
		arg(2); struct buf b = mkbuf(0, argbuf[2], arglen[2]);
		enter(); int rc = kripto_ae_verify(H[h], b.p, (unsigned)b.n); leave(); chk(b, 1);
		ev(h); puthex("i", argbuf[2], arglen[2]); put(",\"v\":%d", rc != 0); tail(1);
	}
	else if(c == 'X') { enter(); kripto_ae_destroy(H[h]); leave(); setobj(h, 0, 0); ev(h); tail(1); }
	else if(c == 'M')
	{
		const kripto_desc_ae *d = desc('a', tok[2]);
		ev(0); putname(tok[2]); put(",\"mk\":\"%u\",\"mi\":\"%u\",\"mt\":\"%u\"", kripto_ae_maxkey(d), kripto_ae_maxiv(d), kripto_ae_maxtag(d)); tail(1);
	}
	else badscript(tok[0]);
}

/* DC kind name : build and free a descriptor of a composed primitive, under accounting */
static void op_desc(void)
{
	char kind = tok[1][0]; char nm[256]; void *d = 0;
	const char *p = strchr(tok[2], '(');
	snprintf(nm, sizeof nm, "%s", p + 1); nm[strlen(nm) - 1] = 0;
	char *c = 0; int depth = 0;
	for(char *q = nm; *q; q++) { if(*q == '(') depth++; if(*q == ')') depth--; if(*q == ',' && !depth) { c = q; break; } }
	if(c) *c++ = 0;
	const char *n = tok[2];
	const void *i1, *i2 = 0;
	size_t pl = (size_t)(p - n);
#define ISN(x) (pl == strlen(x) && !strncmp(n, x, pl))
	i1 = ISN("gost") ? 0 : kind == 's' ? desc('b', nm) : kind == 'm' ? desc(ISN("hmac") ? 'h' : 'b', nm) : c ? desc('s', nm) : desc('b', nm);
	if(c) i2 = desc('m', c);
	enter();
	if(ISN("cbc")) d = kripto_stream_cbc(i1); else if(ISN("cfb")) d = kripto_stream_cfb(i1);
	else if(ISN("ctr")) d = kripto_stream_ctr(i1); else if(ISN("ecb")) d = kripto_stream_ecb(i1);
	else if(ISN("ofb")) d = kripto_stream_ofb(i1); else if(ISN("hmac")) d = kripto_mac_hmac(i1);
	else if(ISN("omac")) d = kripto_mac_omac(i1); else if(ISN("xcbc")) d = kripto_mac_xcbc(i1);
	else if(ISN("eax")) d = kripto_ae_eax(i1); else if(ISN("eax2")) d = kripto_ae_eax2(i1, i2);
	else if(ISN("gost")) d = kripto_block_gost_cbr();
	leave();
	int ok = d != 0;
	track = 1; __wrap_free(d); track = 0;
	put("{\"op\":\"DC\",\"h\":0"); putname(tok[2]); tail(ok);
}

/* a writer that feeds a pipe, and a stand-in for the system's source */
struct feed { const char *f; unsigned char *p; size_t n, chunk; };
static void *feeder(void *a)
{
	struct feed *w = a; int fd = open(w->f, O_WRONLY);
	for(size_t i = 0; i < w->n; )
	{
		ssize_t k = write(fd, w->p + i, w->n - i < w->chunk ? w->n - i : w->chunk);
		if(k <= 0) break;
		i += (size_t)k;
		if(w->n / w->chunk < 3000) usleep(20);
	}
	close(fd); return 0;
}
static const char *sys_source; static int sys_fd = -1;
static int is_sys(const char *p) { return sys_source && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return __real_fopen(is_sys(p) ? sys_source : p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __real_fopen64(is_sys(p) ? sys_source : p, m); }
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); return __real_open(is_sys(p) ? sys_source : p, fl, md); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); return __real_open64(is_sys(p) ? sys_source : p, fl, md); }
ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl)
{
	if(!sys_source) return __real_getrandom(b, n, fl);
	if(sys_fd < 0) sys_fd = __real_open(sys_source, O_RDONLY);
	return read(sys_fd, b, n);
}
int __wrap_getentropy(void *b, size_t n) { return !sys_source ? __real_getentropy(b, n) : __wrap_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

static void op_misc(void)
{
	if(OP("PB"))  /* PB mac r iter pass salt outlen [from]: only the bytes from .. outlen - 1 are logged */
	{
		arg(4); arg(5); const kripto_desc_mac *d = desc('m', tok[1]);
		struct buf pw = mkbuf(0, argbuf[4], arglen[4]), sa = mkbuf(1, argbuf[5], arglen[5]);
		size_t n = (size_t)num(6); struct buf o = mkbuf(2, 0, n);
		enter(); int rc = kripto_pbkdf2(d, (unsigned)num(2), (unsigned)num(3), pw.p, (unsigned)pw.n, sa.p, (unsigned)sa.n, o.p, n); leave();
		chk(pw, 1); chk(sa, 1); chk(o, 0);
		ev(0); putname(tok[1]); size_t z = (size_t)num(7);
		put(",\"r\":%u,\"y\":%u,\"x\":%zu,\"z\":%zu", (unsigned)num(2), (unsigned)num(3), n, z);
		puthex("k", argbuf[4], arglen[4]); puthex("i", argbuf[5], arglen[5]); puthex("o", o.p + z, n - z); tail(rc == 0);
	}
	else if(OP("SY"))  /* SY mac r N r p pass salt outlen */
	{
		arg(6); arg(7); const kripto_desc_mac *d = desc('m', tok[1]);
		struct buf pw = mkbuf(0, argbuf[6], arglen[6]), sa = mkbuf(1, argbuf[7], arglen[7]);
		size_t n = (size_t)num(8); struct buf o = mkbuf(2, 0, n);
		enter(); int rc = kripto_scrypt(d, (unsigned)num(2), (uint64_t)strtoull(tok[3], 0, 0), (uint32_t)strtoul(tok[4], 0, 0), (uint32_t)strtoul(tok[5], 0, 0), pw.p, (unsigned)pw.n, sa.p, (unsigned)sa.n, o.p, n); leave();
		chk(pw, 1); chk(sa, 1); chk(o, 0);
		ev(0); putname(tok[1]); put(",\"r\":%u,\"N\":%ld,\"R\":%ld,\"P\":%ld,\"x\":%zu", (unsigned)num(2), num(3), num(4), num(5), n);
		puthex("k", argbuf[6], arglen[6]); puthex("i", argbuf[7], arglen[7]); puthex("o", o.p, n); tail(rc == 0);
	}
	else if(OP("PA"))  /* PA msg pad maxlen */
	{
		arg(1); size_t n = arglen[1], mx = (size_t)num(3);
		struct buf b = mkbuf(0, 0, mx > n ? mx : n);
		memcpy(b.p, argbuf[1], n);
		size_t tot = b.n; unsigned char *before = __real_malloc(tot + 1); memcpy(before, b.p, tot);
		enter(); size_t rc = kripto_pkcs7_add(b.p, n, (unsigned)num(2), mx); leave(); chk(b, 0);
		size_t keep = rc ? rc : 0; int same = 1;
		for(size_t k = keep; k < tot; k++) if(b.p[k] != before[k]) same = 0;
		__real_free(before);
		ev(0); puthex("i", argbuf[1], n); put(",\"y\":%ld,\"x\":%zu,\"rc\":%zu,\"same\":%d", num(2), mx, rc, same); puthex("o", b.p, rc <= tot ? rc : tot); tail(1);
	}
	else if(OP("PR"))  /* PR padded */
	{
		arg(1); struct buf b = mkbuf(0, argbuf[1], arglen[1]);
		enter(); size_t rc = kripto_pkcs7_rem(b.p, b.n); leave(); chk(b, 1);
		ev(0); puthex("i", argbuf[1], arglen[1]); put(",\"rc\":%zu", rc); tail(1);
	}
	else if(OP("QE"))
	{
		arg(1); arg(2); struct buf a = mkbuf(0, argbuf[1], arglen[1]), b = mkbuf(1, argbuf[2], arglen[2]);
		enter(); int rc = kripto_memory_equals(a.p, b.p, a.n); leave(); chk(a, 1); chk(b, 1);
		ev(0); puthex("i", argbuf[1], arglen[1]); puthex("k", argbuf[2], arglen[2]); put(",\"v\":%d", rc != 0); tail(1);
	}
	else if(OP("QW"))  /* QW buffer off len : wipe a part */
	{
		arg(1); struct buf b = mkbuf(0, argbuf[1], arglen[1]);
		enter(); kripto_memory_wipe(b.p + num(2), (size_t)num(3)); leave(); chk(b, 0);
		ev(0); puthex("i", argbuf[1], arglen[1]); put(",\"y\":%ld,\"x\":%ld", num(2), num(3)); puthex("o", b.p, b.n); tail(1);
	}
	else if(OP("VE"))
	{
		ev(0); put(",\"v\":[%u,%u,%u]", kripto_version_major, kripto_version_minor, kripto_version_revision); tail(1);
	}
	else if(OP("RP"))  /* RP content chunk : the source is a pipe that delivers chunk bytes at a time (one reader) */
	{
		arg(1); const char *f = getenv("RANDOM_FILE"); if(!f) badscript("RANDOM_FILE");
		unlink(f); if(mkfifo(f, 0600)) _exit(77);
		struct feed *w = __real_malloc(sizeof *w);
		w->f = f; w->n = arglen[1]; w->p = __real_malloc(w->n + 1); memcpy(w->p, argbuf[1], w->n); w->chunk = (size_t)num(2);
		signal(SIGPIPE, SIG_IGN);
		pthread_t t; if(pthread_create(&t, 0, feeder, w)) _exit(77); pthread_detach(t);
		setenv("KRIPTO_RANDOM", f, 1);
		ev(0); puthex("i", argbuf[1], arglen[1]); tail(1);
	}
	else if(OP("RS"))  /* RS content : what stands for the system's source */
	{
		arg(1); const char *f = getenv("RANDOM_FILE"); if(!f) badscript("RANDOM_FILE");
		unlink(f); int fd = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0600); if(write(fd, argbuf[1], arglen[1]) != (ssize_t)arglen[1]) _exit(77); close(fd);
		unsetenv("KRIPTO_RANDOM"); sys_source = f; sys_fd = -1;
		ev(0); puthex("i", argbuf[1], arglen[1]); tail(1);
	}
	else if(OP("RF"))  /* RF content : write the random source's file and point the library to it; RF - unset */
	{
		arg(1); const char *f = getenv("RANDOM_FILE");
		if(!f) badscript("RANDOM_FILE");
		unlink(f); int fd = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0600); if(write(fd, argbuf[1], arglen[1]) != (ssize_t)arglen[1]) _exit(77); close(fd);
		setenv("KRIPTO_RANDOM", f, 1);
		ev(0); puthex("i", argbuf[1], arglen[1]); tail(1);
	}
	else if(OP("RN"))  /* RN 0|1 : missing source file / no environment variable (system source) */
	{
		if(num(1)) unsetenv("KRIPTO_RANDOM"); else setenv("KRIPTO_RANDOM", "/nonexistent/source", 1);
		ev(0); put(",\"y\":%ld", num(1)); tail(1);
	}
	else if(OP("RC"))
	{
		int h = (int)num(1); enter(); track = 0; void *s = kripto_random_create(); leave(); setobj(h, s, 'r'); ev(h); tail(s != 0);
	}
	else if(OP("RG"))
	{
		int h = (int)num(1); size_t n = (size_t)num(2); struct buf o = mkbuf(1, 0, n);
		enter(); track = 0; size_t rc = kripto_random_gen(H[h], o.p, n); leave(); chk(o, 0);
		ev(h); put(",\"x\":%zu,\"rc\":%zu", n, rc); puthex("o", o.p, rc <= n ? rc : n); tail(1);
	}
	else if(OP("RT"))
	{
		int h = (int)num(1); enter(); track = 0; int rc = kripto_random_test(H[h]); leave(); ev(h); put(",\"v\":%d", rc != 0); tail(1);
	}
	else if(OP("RX")) { int h = (int)num(1); enter(); track = 0; kripto_random_destroy(H[h]); leave(); setobj(h, 0, 0); ev(h); tail(1); }
	else badscript(tok[0]);
}

#ifdef WITH_WORDS
#include "driver_words.h"
#endif

static void run_op(void)
{
	switch(tok[0][0])
	{
	case 'B': op_block(); break;
	case 'H': op_hash(); break;
	case 'M': op_mac(); break;
	case 'A': op_ae(); break;
	case 'D': op_desc(); break;
#ifdef WITH_WORDS
	case 'W': op_words(); break;
#endif
	case 'S': if(!OP("SY")) { op_stream(); break; } /* fall through */
	default: op_misc();
	}
}

#!/usr/bin/env python3
"""Writes harness/driver_words.h: calls of every load/store/rotate helper (public headers)."""
import sys
o=[]
o.append("/* generated by tools/gen_words.py */\n")
o.append("static uint64_t rot_fixed(char d, int w, int n, uint64_t x)\n{\n\tswitch(w * 256 + n + (d == 'R' ? 65536 : 0))\n\t{\n")
for w in (8,16,32,64):
    for n in range(1,w):
        for d in "LR":
            nm="RO%s%d_%s"%(d,w,str(n) if w==8 else "%02d"%n)
            o.append("\tcase %d: return %s((uint%d_t)x);\n"%(w*256+n+(65536 if d=='R' else 0),nm,w))
o.append("\t}\n\tbadscript(\"rot\"); return 0;\n}\n")
o.append('''static uint64_t rot_var(char d, int w, int n, uint64_t x)
{
	switch(w)
	{
	case 8: return d == 'L' ? ROL8((uint8_t)x, (unsigned)n) : ROR8((uint8_t)x, (unsigned)n);
	case 16: return d == 'L' ? ROL16((uint16_t)x, (unsigned)n) : ROR16((uint16_t)x, (unsigned)n);
	case 32: return d == 'L' ? ROL32((uint32_t)x, (unsigned)n) : ROR32((uint32_t)x, (unsigned)n);
	default: return d == 'L' ? ROL64(x, (unsigned)n) : ROR64(x, (unsigned)n);
	}
}
static uint64_t be(const unsigned char *p, size_t n) { uint64_t x = 0; while(n--) x = x << 8 | *p++; return x; }
static void unbe(uint64_t x, unsigned char *p, size_t n) { while(n--) { p[n] = (unsigned char)x; x >>= 8; } }
/* words are written most significant byte first in the script and in the trace
 *  WF dir n xhex | WV dir n xhex                rotate by a fixed / a variable distance
 *  WL end bytes                                 load one word;      WS end word   store one word
 *  WA end width bytes                           load an array (destination zeroed), width in bits
 *  WB end width words srcbyte n                 store n bytes of an array from byte offset */
static void op_words(void)
{
	char c = tok[0][1]; unsigned char r[64];
	if(c == 'F' || c == 'V')
	{
		arg(3); int n = (int)num(2), w = (int)arglen[3] * 8; uint64_t x = be(argbuf[3], arglen[3]), y;
		enter(); y = c == 'F' ? rot_fixed(tok[1][0], w, n, x) : rot_var(tok[1][0], w, n, x); leave();
		unbe(y, r, arglen[3]);
		ev(0); put(",\\"n\\":\\"%c\\",\\"x\\":%d", tok[1][0], n); puthex("i", argbuf[3], arglen[3]); puthex("o", r, arglen[3]); tail(1);
	}
	else if(c == 'L' || c == 'S')
	{
		arg(2); size_t n = arglen[2]; int b = tok[1][0] == 'B'; uint64_t y = 0;
		struct buf s = mkbuf(0, c == 'L' ? argbuf[2] : 0, n); uint64_t x = be(argbuf[2], n);
		enter();
		if(c == 'L') switch(n)
		{
		case 2: y = b ? LOAD16B(s.p) : LOAD16L(s.p); break;
		case 4: y = b ? LOAD32B(s.p) : LOAD32L(s.p); break;
		default: y = b ? LOAD64B(s.p) : LOAD64L(s.p); break;
		}
		else switch(n)
		{
		case 2: if(b) STORE16B((uint16_t)x, s.p); else STORE16L((uint16_t)x, s.p); break;
		case 4: if(b) STORE32B((uint32_t)x, s.p); else STORE32L((uint32_t)x, s.p); break;
		default: if(b) STORE64B(x, s.p); else STORE64L(x, s.p); break;
		}
		leave(); chk(s, c == 'L');
		if(c == 'L') unbe(y, r, n); else memcpy(r, s.p, n);
		ev(0); put(",\\"n\\":\\"%c\\"", tok[1][0]); puthex("i", argbuf[2], n); puthex("o", r, n); tail(1);
	}
	else if(c == 'A')
	{
		arg(3); size_t n = arglen[3]; int b = tok[1][0] == 'B', w = (int)num(2); size_t nw = (n * 8 + (size_t)w - 1) / (size_t)w;
		struct buf s = mkbuf(0, argbuf[3], n);
		static uint64_t d[1024]; memset(d, 0, sizeof d); unsigned char *o = __real_malloc(nw * 8 + 8);
		enter();
		switch(w)
		{
		case 16: if(b) LOAD16B_ARRAY(s.p, (uint16_t *)d, (unsigned)n); else LOAD16L_ARRAY(s.p, (uint16_t *)d, (unsigned)n); break;
		case 32: if(b) LOAD32B_ARRAY(s.p, (uint32_t *)d, (unsigned)n); else LOAD32L_ARRAY(s.p, (uint32_t *)d, (unsigned)n); break;
		default: if(b) LOAD64B_ARRAY(s.p, d, (unsigned)n); else LOAD64L_ARRAY(s.p, d, (unsigned)n); break;
		}
		leave(); chk(s, 1);
		for(size_t k = 0; k < nw; k++) unbe(w == 16 ? ((uint16_t *)d)[k] : w == 32 ? ((uint32_t *)d)[k] : d[k], o + k * (size_t)w / 8, (size_t)w / 8);
		ev(0); put(",\\"n\\":\\"%c\\",\\"x\\":%d", tok[1][0], w); puthex("i", argbuf[3], n); puthex("o", o, nw * (size_t)w / 8); tail(1);
		__real_free(o);
	}
	else if(c == 'B')
	{
		arg(3); size_t nw = arglen[3] * 8 / (size_t)num(2); int b = tok[1][0] == 'B', w = (int)num(2);
		static uint64_t d[1024]; unsigned off = (unsigned)num(4), n = (unsigned)num(5);
		for(size_t k = 0; k < nw; k++)
		{
			uint64_t x = be(argbuf[3] + k * (size_t)w / 8, (size_t)w / 8);
			if(w == 16) ((uint16_t *)d)[k] = (uint16_t)x; else if(w == 32) ((uint32_t *)d)[k] = (uint32_t)x; else d[k] = x;
		}
		struct buf s = mkbuf(0, 0, n);
		enter();
		switch(w)
		{
		case 16: if(b) STORE16B_ARRAY((uint16_t *)d, off, s.p, n); else STORE16L_ARRAY((uint16_t *)d, off, s.p, n); break;
		case 32: if(b) STORE32B_ARRAY((uint32_t *)d, off, s.p, n); else STORE32L_ARRAY((uint32_t *)d, off, s.p, n); break;
		default: if(b) STORE64B_ARRAY(d, off, s.p, n); else STORE64L_ARRAY(d, off, s.p, n); break;
		}
		leave(); chk(s, 0);
		ev(0); put(",\\"n\\":\\"%c\\",\\"x\\":%d,\\"y\\":%u,\\"z\\":%u", tok[1][0], w, off, n); puthex("i", argbuf[3], arglen[3]); puthex("o", s.p, n); tail(1);
	}
	else badscript(tok[0]);
}
''')
open(sys.argv[1],'w').write(''.join(o))

/* generated by tools/gen_words.py */
static uint64_t rot_fixed(char d, int w, int n, uint64_t x)
{
	switch(w * 256 + n + (d == 'R' ? 65536 : 0))
	{
	case 2049: return ROL8_1((uint8_t)x);
	case 67585: return ROR8_1((uint8_t)x);
	case 2050: return ROL8_2((uint8_t)x);
	case 67586: return ROR8_2((uint8_t)x);
	case 2051: return ROL8_3((uint8_t)x);
	case 67587: return ROR8_3((uint8_t)x);
	case 2052: return ROL8_4((uint8_t)x);
	case 67588: return ROR8_4((uint8_t)x);
	case 2053: return ROL8_5((uint8_t)x);
	case 67589: return ROR8_5((uint8_t)x);
	case 2054: return ROL8_6((uint8_t)x);
	case 67590: return ROR8_6((uint8_t)x);
	case 2055: return ROL8_7((uint8_t)x);
	case 67591: return ROR8_7((uint8_t)x);
	case 4097: return ROL16_01((uint16_t)x);
	case 69633: return ROR16_01((uint16_t)x);
	case 4098: return ROL16_02((uint16_t)x);
	case 69634: return ROR16_02((uint16_t)x);
	case 4099: return ROL16_03((uint16_t)x);
	case 69635: return ROR16_03((uint16_t)x);
	case 4100: return ROL16_04((uint16_t)x);
	case 69636: return ROR16_04((uint16_t)x);
	case 4101: return ROL16_05((uint16_t)x);
	case 69637: return ROR16_05((uint16_t)x);
	case 4102: return ROL16_06((uint16_t)x);
	case 69638: return ROR16_06((uint16_t)x);
	case 4103: return ROL16_07((uint16_t)x);
	case 69639: return ROR16_07((uint16_t)x);
	case 4104: return ROL16_08((uint16_t)x);
	case 69640: return ROR16_08((uint16_t)x);
	case 4105: return ROL16_09((uint16_t)x);
	case 69641: return ROR16_09((uint16_t)x);
	case 4106: return ROL16_10((uint16_t)x);
	case 69642: return ROR16_10((uint16_t)x);
	case 4107: return ROL16_11((uint16_t)x);
	case 69643: return ROR16_11((uint16_t)x);
	case 4108: return ROL16_12((uint16_t)x);
	case 69644: return ROR16_12((uint16_t)x);
	case 4109: return ROL16_13((uint16_t)x);
	case 69645: return ROR16_13((uint16_t)x);
	case 4110: return ROL16_14((uint16_t)x);
	case 69646: return ROR16_14((uint16_t)x);
	case 4111: return ROL16_15((uint16_t)x);
	case 69647: return ROR16_15((uint16_t)x);
	case 8193: return ROL32_01((uint32_t)x);
	case 73729: return ROR32_01((uint32_t)x);
	case 8194: return ROL32_02((uint32_t)x);
	case 73730: return ROR32_02((uint32_t)x);
	case 8195: return ROL32_03((uint32_t)x);
	case 73731: return ROR32_03((uint32_t)x);
	case 8196: return ROL32_04((uint32_t)x);
	case 73732: return ROR32_04((uint32_t)x);
	case 8197: return ROL32_05((uint32_t)x);
	case 73733: return ROR32_05((uint32_t)x);
	case 8198: return ROL32_06((uint32_t)x);
	case 73734: return ROR32_06((uint32_t)x);
	case 8199: return ROL32_07((uint32_t)x);
	case 73735: return ROR32_07((uint32_t)x);
	case 8200: return ROL32_08((uint32_t)x);
	case 73736: return ROR32_08((uint32_t)x);
	case 8201: return ROL32_09((uint32_t)x);
	case 73737: return ROR32_09((uint32_t)x);
	case 8202: return ROL32_10((uint32_t)x);
	case 73738: return ROR32_10((uint32_t)x);
	case 8203: return ROL32_11((uint32_t)x);
	case 73739: return ROR32_11((uint32_t)x);
	case 8204: return ROL32_12((uint32_t)x);
	case 73740: return ROR32_12((uint32_t)x);
	case 8205: return ROL32_13((uint32_t)x);
	case 73741: return ROR32_13((uint32_t)x);
	case 8206: return ROL32_14((uint32_t)x);
	case 73742: return ROR32_14((uint32_t)x);
	case 8207: return ROL32_15((uint32_t)x);
	case 73743: return ROR32_15((uint32_t)x);
	case 8208: return ROL32_16((uint32_t)x);
	case 73744: return ROR32_16((uint32_t)x);
	case 8209: return ROL32_17((uint32_t)x);
	case 73745: return ROR32_17((uint32_t)x);
	case 8210: return ROL32_18((uint32_t)x);
	case 73746: return ROR32_18((uint32_t)x);
	case 8211: return ROL32_19((uint32_t)x);
	case 73747: return ROR32_19((uint32_t)x);
	case 8212: return ROL32_20((uint32_t)x);
	case 73748: return ROR32_20((uint32_t)x);
	case 8213: return ROL32_21((uint32_t)x);
	case 73749: return ROR32_21((uint32_t)x);
	case 8214: return ROL32_22((uint32_t)x);
	case 73750: return ROR32_22((uint32_t)x);
	case 8215: return ROL32_23((uint32_t)x);
	case 73751: return ROR32_23((uint32_t)x);
	case 8216: return ROL32_24((uint32_t)x);
	case 73752: return ROR32_24((uint32_t)x);
	case 8217: return ROL32_25((uint32_t)x);
	case 73753: return ROR32_25((uint32_t)x);
	case 8218: return ROL32_26((uint32_t)x);
	case 73754: return ROR32_26((uint32_t)x);
	case 8219: return ROL32_27((uint32_t)x);
	case 73755: return ROR32_27((uint32_t)x);
	case 8220: return ROL32_28((uint32_t)x);
	case 73756: return ROR32_28((uint32_t)x);
	case 8221: return ROL32_29((uint32_t)x);
	case 73757: return ROR32_29((uint32_t)x);
	case 8222: return ROL32_30((uint32_t)x);
	case 73758: return ROR32_30((uint32_t)x);
	case 8223: return ROL32_31((uint32_t)x);
	case 73759: return ROR32_31((uint32_t)x);
	case 16385: return ROL64_01((uint64_t)x);
	case 81921: return ROR64_01((uint64_t)x);
	case 16386: return ROL64_02((uint64_t)x);
	case 81922: return ROR64_02((uint64_t)x);
	case 16387: return ROL64_03((uint64_t)x);
	case 81923: return ROR64_03((uint64_t)x);
	case 16388: return ROL64_04((uint64_t)x);
	case 81924: return ROR64_04((uint64_t)x);
	case 16389: return ROL64_05((uint64_t)x);
	case 81925: return ROR64_05((uint64_t)x);
	case 16390: return ROL64_06((uint64_t)x);
	case 81926: return ROR64_06((uint64_t)x);
	case 16391: return ROL64_07((uint64_t)x);
	case 81927: return ROR64_07((uint64_t)x);
	case 16392: return ROL64_08((uint64_t)x);
	case 81928: return ROR64_08((uint64_t)x);
	case 16393: return ROL64_09((uint64_t)x);
	case 81929: return ROR64_09((uint64_t)x);
	case 16394: return ROL64_10((uint64_t)x);
	case 81930: return ROR64_10((uint64_t)x);
	case 16395: return ROL64_11((uint64_t)x);
	case 81931: return ROR64_11((uint64_t)x);
	case 16396: return ROL64_12((uint64_t)x);
	case 81932: return ROR64_12((uint64_t)x);
	case 16397: return ROL64_13((uint64_t)x);
	case 81933: return ROR64_13((uint64_t)x);
	case 16398: return ROL64_14((uint64_t)x);
	case 81934: return ROR64_14((uint64_t)x);
	case 16399: return ROL64_15((uint64_t)x);
	case 81935: return ROR64_15((uint64_t)x);
	case 16400: return ROL64_16((uint64_t)x);
	case 81936: return ROR64_16((uint64_t)x);
	case 16401: return ROL64_17((uint64_t)x);
	case 81937: return ROR64_17((uint64_t)x);
	case 16402: return ROL64_18((uint64_t)x);
	case 81938: return ROR64_18((uint64_t)x);
	case 16403: return ROL64_19((uint64_t)x);
	case 81939: return ROR64_19((uint64_t)x);
	case 16404: return ROL64_20((uint64_t)x);
	case 81940: return ROR64_20((uint64_t)x);
	case 16405: return ROL64_21((uint64_t)x);
	case 81941: return ROR64_21((uint64_t)x);
	case 16406: return ROL64_22((uint64_t)x);
	case 81942: return ROR64_22((uint64_t)x);
	case 16407: return ROL64_23((uint64_t)x);
	case 81943: return ROR64_23((uint64_t)x);
	case 16408: return ROL64_24((uint64_t)x);
	case 81944: return ROR64_24((uint64_t)x);
	case 16409: return ROL64_25((uint64_t)x);
	case 81945: return ROR64_25((uint64_t)x);
	case 16410: return ROL64_26((uint64_t)x);
	case 81946: return ROR64_26((uint64_t)x);
	case 16411: return ROL64_27((uint64_t)x);
	case 81947: return ROR64_27((uint64_t)x);
	case 16412: return ROL64_28((uint64_t)x);
	case 81948: return ROR64_28((uint64_t)x);
	case 16413: return ROL64_29((uint64_t)x);
	case 81949: return ROR64_29((uint64_t)x);
	case 16414: return ROL64_30((uint64_t)x);
	case 81950: return ROR64_30((uint64_t)x);
	case 16415: return ROL64_31((uint64_t)x);
	case 81951: return ROR64_31((uint64_t)x);
	case 16416: return ROL64_32((uint64_t)x);
	case 81952: return ROR64_32((uint64_t)x);
	case 16417: return ROL64_33((uint64_t)x);
	case 81953: return ROR64_33((uint64_t)x);
	case 16418: return ROL64_34((uint64_t)x);
	case 81954: return ROR64_34((uint64_t)x);
	case 16419: return ROL64_35((uint64_t)x);
	case 81955: return ROR64_35((uint64_t)x);
	case 16420: return ROL64_36((uint64_t)x);
	case 81956: return ROR64_36((uint64_t)x);
	case 16421: return ROL64_37((uint64_t)x);
	case 81957: return ROR64_37((uint64_t)x);
	case 16422: return ROL64_38((uint64_t)x);
	case 81958: return ROR64_38((uint64_t)x);
	case 16423: return ROL64_39((uint64_t)x);
	case 81959: return ROR64_39((uint64_t)x);
	case 16424: return ROL64_40((uint64_t)x);
	case 81960: return ROR64_40((uint64_t)x);
	case 16425: return ROL64_41((uint64_t)x);
	case 81961: return ROR64_41((uint64_t)x);
	case 16426: return ROL64_42((uint64_t)x);
	case 81962: return ROR64_42((uint64_t)x);
	case 16427: return ROL64_43((uint64_t)x);
	case 81963: return ROR64_43((uint64_t)x);
	case 16428: return ROL64_44((uint64_t)x);
	case 81964: return ROR64_44((uint64_t)x);
	case 16429: return ROL64_45((uint64_t)x);
	case 81965: return ROR64_45((uint64_t)x);
	case 16430: return ROL64_46((uint64_t)x);
	case 81966: return ROR64_46((uint64_t)x);
	case 16431: return ROL64_47((uint64_t)x);
	case 81967: return ROR64_47((uint64_t)x);
	case 16432: return ROL64_48((uint64_t)x);
	case 81968: return ROR64_48((uint64_t)x);
	case 16433: return ROL64_49((uint64_t)x);
	case 81969: return ROR64_49((uint64_t)x);
	case 16434: return ROL64_50((uint64_t)x);
	case 81970: return ROR64_50((uint64_t)x);
	case 16435: return ROL64_51((uint64_t)x);
	case 81971: return ROR64_51((uint64_t)x);
	case 16436: return ROL64_52((uint64_t)x);
	case 81972: return ROR64_52((uint64_t)x);
	case 16437: return ROL64_53((uint64_t)x);
	case 81973: return ROR64_53((uint64_t)x);
	case 16438: return ROL64_54((uint64_t)x);
	case 81974: return ROR64_54((uint64_t)x);
	case 16439: return ROL64_55((uint64_t)x);
	case 81975: return ROR64_55((uint64_t)x);
	case 16440: return ROL64_56((uint64_t)x);
	case 81976: return ROR64_56((uint64_t)x);
	case 16441: return ROL64_57((uint64_t)x);
	case 81977: return ROR64_57((uint64_t)x);
	case 16442: return ROL64_58((uint64_t)x);
	case 81978: return ROR64_58((uint64_t)x);
	case 16443: return ROL64_59((uint64_t)x);
	case 81979: return ROR64_59((uint64_t)x);
	case 16444: return ROL64_60((uint64_t)x);
	case 81980: return ROR64_60((uint64_t)x);
	case 16445: return ROL64_61((uint64_t)x);
	case 81981: return ROR64_61((uint64_t)x);
	case 16446: return ROL64_62((uint64_t)x);
	case 81982: return ROR64_62((uint64_t)x);
	case 16447: return ROL64_63((uint64_t)x);
	case 81983: return ROR64_63((uint64_t)x);
	}
	badscript("rot"); return 0;
}
static uint64_t rot_var(char d, int w, int n, uint64_t x)
{
	switch(w)
	{
	case 8: return d == 'L' ? ROL8((uint8_t)x, (unsigned)n) : ROR8((uint8_t)x, (unsigned)n);
	case 16: return d == 'L' ? ROL16((uint16_t)x, (unsigned)n) : ROR16((uint16_t)x, (unsigned)n);
	case 32: return d == 'L' ? ROL32((uint32_t)x, (unsigned)n) : ROR32((uint32_t)x, (unsigned)n);
	default: return d == 'L' ? ROL64(x, (unsigned)n) : ROR64(x, (unsigned)n);
	}
}
static uint64_t be(const unsigned char *p, size_t n) { uint64_t x = 0; while(n--) x = x << 8 | *p++; return x; }
static void unbe(uint64_t x, unsigned char *p, size_t n) { while(n--) { p[n] = (unsigned char)x; x >>= 8; } }
/* words are written most significant byte first in the script and in the trace
 *  WF dir n xhex | WV dir n xhex                rotate by a fixed / a variable distance
 *  WL end bytes                                 load one word;      WS end word   store one word
 *  WA end width bytes                           load an array (destination zeroed), width in bits
 *  WB end width words srcbyte n                 store n bytes of an array from byte offset */
static void op_words(void)
{
	char c = tok[0][1]; unsigned char r[64];
	if(c == 'F' || c == 'V')
	{
		arg(3); int n = (int)num(2), w = (int)arglen[3] * 8; uint64_t x = be(argbuf[3], arglen[3]), y;
		enter(); y = c == 'F' ? rot_fixed(tok[1][0], w, n, x) : rot_var(tok[1][0], w, n, x); leave();
		unbe(y, r, arglen[3]);
		ev(0); put(",\"n\":\"%c\",\"x\":%d", tok[1][0], n); puthex("i", argbuf[3], arglen[3]); puthex("o", r, arglen[3]); tail(1);
	}
	else if(c == 'L' || c == 'S')
	{
		arg(2); size_t n = arglen[2]; int b = tok[1][0] == 'B'; uint64_t y = 0;
		struct buf s = mkbuf(0, c == 'L' ? argbuf[2] : 0, n); uint64_t x = be(argbuf[2], n);
		enter();
		if(c == 'L') switch(n)
		{
		case 2: y = b ? LOAD16B(s.p) : LOAD16L(s.p); break;
		case 4: y = b ? LOAD32B(s.p) : LOAD32L(s.p); break;
		default: y = b ? LOAD64B(s.p) : LOAD64L(s.p); break;
		}
		else switch(n)
		{
		case 2: if(b) STORE16B((uint16_t)x, s.p); else STORE16L((uint16_t)x, s.p); break;
		case 4: if(b) STORE32B((uint32_t)x, s.p); else STORE32L((uint32_t)x, s.p); break;
		default: if(b) STORE64B(x, s.p); else STORE64L(x, s.p); break;
		}
		leave(); chk(s, c == 'L');
		if(c == 'L') unbe(y, r, n); else memcpy(r, s.p, n);
		ev(0); put(",\"n\":\"%c\"", tok[1][0]); puthex("i", argbuf[2], n); puthex("o", r, n); tail(1);
	}
	else if(c == 'A')
	{
		arg(3); size_t n = arglen[3]; int b = tok[1][0] == 'B', w = (int)num(2); size_t nw = (n * 8 + (size_t)w - 1) / (size_t)w;
		struct buf s = mkbuf(0, argbuf[3], n);
		static uint64_t d[1024]; memset(d, 0, sizeof d); unsigned char *o = __real_malloc(nw * 8 + 8);
		enter();
		switch(w)
		{
		case 16: if(b) LOAD16B_ARRAY(s.p, (uint16_t *)d, (unsigned)n); else LOAD16L_ARRAY(s.p, (uint16_t *)d, (unsigned)n); break;
		case 32: if(b) LOAD32B_ARRAY(s.p, (uint32_t *)d, (unsigned)n); else LOAD32L_ARRAY(s.p, (uint32_t *)d, (unsigned)n); break;
		default: if(b) LOAD64B_ARRAY(s.p, d, (unsigned)n); else LOAD64L_ARRAY(s.p, d, (unsigned)n); break;
		}
		leave(); chk(s, 1);
		for(size_t k = 0; k < nw; k++) unbe(w == 16 ? ((uint16_t *)d)[k] : w == 32 ? ((uint32_t *)d)[k] : d[k], o + k * (size_t)w / 8, (size_t)w / 8);
		ev(0); put(",\"n\":\"%c\",\"x\":%d", tok[1][0], w); puthex("i", argbuf[3], n); puthex("o", o, nw * (size_t)w / 8); tail(1);
		__real_free(o);
	}
	else if(c == 'B')
	{
		arg(3); size_t nw = arglen[3] * 8 / (size_t)num(2); int b = tok[1][0] == 'B', w = (int)num(2);
		static uint64_t d[1024]; unsigned off = (unsigned)num(4), n = (unsigned)num(5);
		for(size_t k = 0; k < nw; k++)
		{
			uint64_t x = be(argbuf[3] + k * (size_t)w / 8, (size_t)w / 8);
			if(w == 16) ((uint16_t *)d)[k] = (uint16_t)x; else if(w == 32) ((uint32_t *)d)[k] = (uint32_t)x; else d[k] = x;
		}
		struct buf s = mkbuf(0, 0, n);
		enter();
		switch(w)
		{
		case 16: if(b) STORE16B_ARRAY((uint16_t *)d, off, s.p, n); else STORE16L_ARRAY((uint16_t *)d, off, s.p, n); break;
		case 32: if(b) STORE32B_ARRAY((uint32_t *)d, off, s.p, n); else STORE32L_ARRAY((uint32_t *)d, off, s.p, n); break;
		default: if(b) STORE64B_ARRAY(d, off, s.p, n); else STORE64L_ARRAY(d, off, s.p, n); break;
		}
		leave(); chk(s, 0);
		ev(0); put(",\"n\":\"%c\",\"x\":%d,\"y\":%u,\"z\":%u", tok[1][0], w, off, n); puthex("i", argbuf[3], arglen[3]); puthex("o", s.p, n); tail(1);
	}
	else badscript(tok[0]);
}

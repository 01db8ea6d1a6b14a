/* TLC overrides of the operators of Words.tla (evaluation speed only; the TLA+
 * definitions in Words.tla are the specification, WordsCheck.tla compares them). */
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public final class Words {
  static int i(Value v) { return ((IntValue) v).val; }
  static IntValue g(int x) { return IntValue.gen(x); }
  static Value[] t(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static TupleValue T(Value... v) { return new TupleValue(v); }
  static long l(Value v) { Value[] e = t(v); return ((long) i(e[0]) << 32) | (i(e[1]) & 0xffffffffL); }
  static TupleValue L(long x) { return T(g((int) (x >>> 32)), g((int) x)); }

  @TLAPlusOperator(identifier = "Iter", module = "Words", warn = false)
  public static Value iter(final OpValue f, final Value x, final Value n) {
    Value acc = x; int N = i(n);
    for (int k = 0; k < N; k++) acc = f.eval(new Value[] {acc, g(k)}, 0);
    return acc;
  }
  @TLAPlusOperator(identifier = "Tab", module = "Words", warn = false)
  public static Value tab(final OpValue f, final Value n) {
    Value[] r = new Value[i(n)];
    for (int k = 0; k < r.length; k++) r[k] = f.eval(new Value[] {g(k + 1)}, 0);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "FoldS", module = "Words", warn = false)
  public static Value foldS(final OpValue f, final Value x, final Value s) {
    Value acc = x; Value[] e = t(s);
    for (int k = 0; k < e.length; k++) acc = f.eval(new Value[] {acc, e[k]}, 0);
    return acc;
  }
  @TLAPlusOperator(identifier = "Rep", module = "Words", warn = false)
  public static Value rep(final Value b, final Value n) {
    Value[] r = new Value[i(n)]; java.util.Arrays.fill(r, b); return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Patch", module = "Words", warn = false)
  public static Value patch(final Value s, final Value off, final Value u) {
    Value[] r = t(s).clone(); Value[] e = t(u); int o = i(off);
    for (int k = 0; k < e.length; k++) if (o + k < r.length) r[o + k] = e[k];
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "RevS", module = "Words", warn = false)
  public static Value rev(final Value s) {
    Value[] e = t(s); Value[] r = new Value[e.length];
    for (int k = 0; k < r.length; k++) r[k] = e[r.length - 1 - k];
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "FlattenS", module = "Words", warn = false)
  public static Value flat(final Value s) {
    Value[] e = t(s); int n = 0;
    for (Value v : e) n += t(v).length;
    Value[] r = new Value[n]; n = 0;
    for (Value v : e) { Value[] q = t(v); System.arraycopy(q, 0, r, n, q.length); n += q.length; }
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "\\oplus", module = "Words", warn = false)
  public static Value xor(final Value a, final Value b) { return g(i(a) ^ i(b)); }
  @TLAPlusOperator(identifier = "&", module = "Words", warn = false)
  public static Value and(final Value a, final Value b) { return g(i(a) & i(b)); }
  @TLAPlusOperator(identifier = "|", module = "Words", warn = false)
  public static Value or(final Value a, final Value b) { return g(i(a) | i(b)); }
  @TLAPlusOperator(identifier = "Not", module = "Words", warn = false)
  public static Value not(final Value a) { return g(~i(a)); }
  @TLAPlusOperator(identifier = "++", module = "Words", warn = false)
  public static Value add(final Value a, final Value b) { return g(i(a) + i(b)); }
  @TLAPlusOperator(identifier = "--", module = "Words", warn = false)
  public static Value sub(final Value a, final Value b) { return g(i(a) - i(b)); }
  @TLAPlusOperator(identifier = "**", module = "Words", warn = false)
  public static Value mul(final Value a, final Value b) { return g(i(a) * i(b)); }
  @TLAPlusOperator(identifier = "Neg", module = "Words", warn = false)
  public static Value neg(final Value a) { return g(-i(a)); }
  @TLAPlusOperator(identifier = "Shl", module = "Words", warn = false)
  public static Value shl(final Value a, final Value n) { return g(i(a) << i(n)); }
  @TLAPlusOperator(identifier = "Shr", module = "Words", warn = false)
  public static Value shr(final Value a, final Value n) { return g(i(a) >>> i(n)); }
  @TLAPlusOperator(identifier = "Rol", module = "Words", warn = false)
  public static Value rol(final Value a, final Value n) { return g(Integer.rotateLeft(i(a), i(n))); }
  @TLAPlusOperator(identifier = "Ror", module = "Words", warn = false)
  public static Value ror(final Value a, final Value n) { return g(Integer.rotateRight(i(a), i(n))); }
  @TLAPlusOperator(identifier = "LtU", module = "Words", warn = false)
  public static Value ltu(final Value a, final Value b) {
    return Integer.compareUnsigned(i(a), i(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  @TLAPlusOperator(identifier = "ByteOf", module = "Words", warn = false)
  public static Value byteOf(final Value x, final Value k) { return g((i(x) >>> (8 * i(k))) & 255); }
  @TLAPlusOperator(identifier = "ModU", module = "Words", warn = false)
  public static Value modu(final Value x, final Value n) { return g(Integer.remainderUnsigned(i(x), i(n))); }
  @TLAPlusOperator(identifier = "Rol16", module = "Words", warn = false)
  public static Value rol16(final Value x, final Value n) { int v = i(x), k = i(n); return g(((v << k) | (v >>> (16 - k))) & 0xffff); }
  @TLAPlusOperator(identifier = "Ror16", module = "Words", warn = false)
  public static Value ror16(final Value x, final Value n) { int v = i(x), k = i(n); return g(((v >>> k) | (v << (16 - k))) & 0xffff); }
  @TLAPlusOperator(identifier = "Rol8", module = "Words", warn = false)
  public static Value rol8(final Value x, final Value n) { int v = i(x), k = i(n); return g(((v << k) | (v >>> (8 - k))) & 0xff); }
  @TLAPlusOperator(identifier = "Ror8", module = "Words", warn = false)
  public static Value ror8(final Value x, final Value n) { int v = i(x), k = i(n); return g(((v >>> k) | (v << (8 - k))) & 0xff); }

  @TLAPlusOperator(identifier = "^^", module = "Words", warn = false)
  public static Value xor64(final Value a, final Value b) { return L(l(a) ^ l(b)); }
  @TLAPlusOperator(identifier = "&&", module = "Words", warn = false)
  public static Value and64(final Value a, final Value b) { return L(l(a) & l(b)); }
  @TLAPlusOperator(identifier = "||", module = "Words", warn = false)
  public static Value or64(final Value a, final Value b) { return L(l(a) | l(b)); }
  @TLAPlusOperator(identifier = "Not64", module = "Words", warn = false)
  public static Value not64(final Value a) { return L(~l(a)); }
  @TLAPlusOperator(identifier = "\\uplus", module = "Words", warn = false)
  public static Value add64(final Value a, final Value b) { return L(l(a) + l(b)); }
  @TLAPlusOperator(identifier = "\\ominus", module = "Words", warn = false)
  public static Value sub64(final Value a, final Value b) { return L(l(a) - l(b)); }
  @TLAPlusOperator(identifier = "\\otimes", module = "Words", warn = false)
  public static Value mul64(final Value a, final Value b) { return L(l(a) * l(b)); }
  @TLAPlusOperator(identifier = "Shl64", module = "Words", warn = false)
  public static Value shl64(final Value a, final Value n) { return L(l(a) << i(n)); }
  @TLAPlusOperator(identifier = "Shr64", module = "Words", warn = false)
  public static Value shr64(final Value a, final Value n) { return L(l(a) >>> i(n)); }
  @TLAPlusOperator(identifier = "Rol64", module = "Words", warn = false)
  public static Value rol64(final Value a, final Value n) { return L(Long.rotateLeft(l(a), i(n))); }
  @TLAPlusOperator(identifier = "Ror64", module = "Words", warn = false)
  public static Value ror64(final Value a, final Value n) { return L(Long.rotateRight(l(a), i(n))); }
  @TLAPlusOperator(identifier = "ByteOf64", module = "Words", warn = false)
  public static Value byteOf64(final Value x, final Value k) { return g((int) (l(x) >>> (8 * i(k))) & 255); }

  @TLAPlusOperator(identifier = "XorB", module = "Words", warn = false)
  public static Value xorB(final Value s, final Value u) {
    Value[] a = t(s), b = t(u); Value[] r = new Value[a.length];
    for (int k = 0; k < r.length; k++) r[k] = g(i(a[k]) ^ i(b[k]));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "XorW", module = "Words", warn = false)
  public static Value xorW(final Value s, final Value u) { return xorB(s, u); }
  @TLAPlusOperator(identifier = "XorW64", module = "Words", warn = false)
  public static Value xorW64(final Value s, final Value u) {
    Value[] a = t(s), b = t(u); Value[] r = new Value[a.length];
    for (int k = 0; k < r.length; k++) r[k] = L(l(a[k]) ^ l(b[k]));
    return new TupleValue(r);
  }
  static Value bytes(long x, int n, boolean be) {
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++) r[be ? n - 1 - k : k] = g((int) (x >>> (8 * k)) & 255);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Be32", module = "Words", warn = false)
  public static Value be32(final Value x) { return bytes(i(x) & 0xffffffffL, 4, true); }
  @TLAPlusOperator(identifier = "Le32", module = "Words", warn = false)
  public static Value le32(final Value x) { return bytes(i(x) & 0xffffffffL, 4, false); }
  @TLAPlusOperator(identifier = "Be64", module = "Words", warn = false)
  public static Value be64(final Value x) { return bytes(l(x), 8, true); }
  @TLAPlusOperator(identifier = "Le64", module = "Words", warn = false)
  public static Value le64(final Value x) { return bytes(l(x), 8, false); }

  static long load(Value[] s, int o, int n, boolean be) {
    long x = 0;
    for (int k = 0; k < n; k++) x |= ((long) i(s[o + k]) & 255) << (8 * (be ? n - 1 - k : k));
    return x;
  }
  static Value words(Value v, int n, boolean be) {
    Value[] s = t(v); Value[] r = new Value[s.length / n];
    for (int k = 0; k < r.length; k++) {
      long x = load(s, k * n, n, be);
      r[k] = n == 8 ? L(x) : g((int) x);
    }
    return new TupleValue(r);
  }
  static Value unwords(Value v, int n, boolean be) {
    Value[] s = t(v); Value[] r = new Value[s.length * n];
    for (int k = 0; k < s.length; k++) {
      long x = n == 8 ? l(s[k]) : i(s[k]);
      for (int j = 0; j < n; j++) r[k * n + (be ? n - 1 - j : j)] = g((int) (x >>> (8 * j)) & 255);
    }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "WordsBE16", module = "Words", warn = false)
  public static Value wbe16(final Value s) { return words(s, 2, true); }
  @TLAPlusOperator(identifier = "WordsLE16", module = "Words", warn = false)
  public static Value wle16(final Value s) { return words(s, 2, false); }
  @TLAPlusOperator(identifier = "WordsBE32", module = "Words", warn = false)
  public static Value wbe32(final Value s) { return words(s, 4, true); }
  @TLAPlusOperator(identifier = "WordsLE32", module = "Words", warn = false)
  public static Value wle32(final Value s) { return words(s, 4, false); }
  @TLAPlusOperator(identifier = "WordsBE64", module = "Words", warn = false)
  public static Value wbe64(final Value s) { return words(s, 8, true); }
  @TLAPlusOperator(identifier = "WordsLE64", module = "Words", warn = false)
  public static Value wle64(final Value s) { return words(s, 8, false); }
  @TLAPlusOperator(identifier = "BytesBE16", module = "Words", warn = false)
  public static Value bbe16(final Value s) { return unwords(s, 2, true); }
  @TLAPlusOperator(identifier = "BytesLE16", module = "Words", warn = false)
  public static Value ble16(final Value s) { return unwords(s, 2, false); }
  @TLAPlusOperator(identifier = "BytesBE32", module = "Words", warn = false)
  public static Value bbe32(final Value s) { return unwords(s, 4, true); }
  @TLAPlusOperator(identifier = "BytesLE32", module = "Words", warn = false)
  public static Value ble32(final Value s) { return unwords(s, 4, false); }
  @TLAPlusOperator(identifier = "BytesBE64", module = "Words", warn = false)
  public static Value bbe64(final Value s) { return unwords(s, 8, true); }
  @TLAPlusOperator(identifier = "BytesLE64", module = "Words", warn = false)
  public static Value ble64(final Value s) { return unwords(s, 8, false); }

  @TLAPlusOperator(identifier = "Hex", module = "Words", warn = false)
  public static Value hex(final Value s) {
    String x = ((StringValue) s).val.toString();
    Value[] r = new Value[x.length() / 2];
    for (int k = 0; k < r.length; k++)
      r[k] = g(Character.digit(x.charAt(2 * k), 16) * 16 + Character.digit(x.charAt(2 * k + 1), 16));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "GMul", module = "Words", warn = false)
  public static Value gmul(final Value a, final Value b, final Value p) {
    int x = i(a), y = i(b), q = i(p), acc = 0;
    for (int k = 7; k >= 0; k--) {
      acc = acc >= 128 ? ((acc << 1) & 255) ^ q : acc << 1;
      if (((y >> k) & 1) != 0) acc ^= x;
    }
    return g(acc);
  }
}

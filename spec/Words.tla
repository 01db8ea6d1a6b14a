------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words for the libkripto specification.                          *)
(*                                                                         *)
(* byte     0..255                    nat       0..2^31-1                   *)
(* word16   0..65535                                                       *)
(* word32   -2^31..2^31-1 : the 32-bit pattern read as a signed integer    *)
(*          (TLC's integers are 32-bit, so this is the only faithful       *)
(*          one-value representation)                                      *)
(* word64   <<hi, lo>>, a pair of word32                                   *)
(*                                                                         *)
(* Every operator has a pure TLA+ definition below: that definition is the *)
(* specification.  The Java class Words (../java) overrides the same       *)
(* operators so that TLC evaluates them quickly; WordsCheck.tla compares   *)
(* the overrides with the definitions (PureWords.tla is this module under  *)
(* another name, hence not overridden).                                    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL BW == INSTANCE Bitwise

MinInt == -2147483647 - 1

\* ---------------------------------------------------------------- iteration
\* Iter(f, x, n) = f(...f(f(x, 0), 1)..., n-1)
RECURSIVE Iter(_, _, _)
Iter(f(_, _), x, n) == IF n = 0 THEN x ELSE f(Iter(f, x, n - 1), n - 1)

\* the tuple <<f(1), ..., f(n)>>
Tab(f(_), n) == [i \in 1..n |-> f(i)]

\* left fold over a sequence
FoldS(f(_, _), x, s) == LET g(acc, i) == f(acc, s[i + 1]) IN Iter(g, x, Len(s))

Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == Rep(0, n)

\* bytes s[off], s[off+1], ... (0-based offset, n of them)
Slice(s, off, n) == SubSeq(s, off + 1, off + n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

\* s with s[off+1 .. off+Len(t)] replaced by t
Patch(s, off, t) == [i \in 1..Len(s) |->
    IF i > off /\ i <= off + Len(t) THEN t[i - off] ELSE s[i]]

RevS(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

FlattenS(ss) == FoldS(LAMBDA a, b : a \o b, <<>>, ss)

\* ------------------------------------------------------------ 16-bit halves
LOCAL Hi(x) == IF x >= 0 THEN x \div 65536 ELSE 65536 + (x \div 65536)
LOCAL Lo(x) == x % 65536
LOCAL Mk(h, l) == (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + l
LOCAL And16(a, b) == BW!&(a, b)
LOCAL Or16(a, b) == BW!|(a, b)
LOCAL Xor16(a, b) == BW!^^(a, b)

\* ------------------------------------------------------------------- 32-bit
a \oplus b == Mk(Xor16(Hi(a), Hi(b)), Xor16(Lo(a), Lo(b)))
a & b == Mk(And16(Hi(a), Hi(b)), And16(Lo(a), Lo(b)))
a | b == Mk(Or16(Hi(a), Hi(b)), Or16(Lo(a), Lo(b)))
Not(a) == -1 - a
a ++ b == LET l == Lo(a) + Lo(b)
              h == Hi(a) + Hi(b) + (l \div 65536)
          IN Mk(h % 65536, l % 65536)
Neg(a) == Not(a) ++ 1
a -- b == a ++ Neg(b)

\* shifts and rotates: 0 <= n <= 31
Shl(a, n) == LET Twice(x, i) == x ++ x IN Iter(Twice, a, n)
LOCAL Half(x) == LET h == Hi(x) l == Lo(x)
                 IN Mk(h \div 2, (l \div 2) + (h % 2) * 32768)
Shr(a, n) == LET H(x, i) == Half(x) IN Iter(H, a, n)
Rol(a, n) == IF n = 0 THEN a ELSE Shl(a, n) | Shr(a, 32 - n)
Ror(a, n) == IF n = 0 THEN a ELSE Shr(a, n) | Shl(a, 32 - n)

\* multiplication modulo 2^32: shift and add
a ** b == LET step(acc, i) == IF Shr(b, 31 - i) % 2 = 1
                              THEN (acc ++ acc) ++ a ELSE acc ++ acc
          IN Iter(step, 0, 32)

\* unsigned comparison
LtU(a, b) == Hi(a) < Hi(b) \/ (Hi(a) = Hi(b) /\ Lo(a) < Lo(b))

\* the k-th byte, k = 0 least significant
ByteOf(x, k) == Lo(Shr(x, 8 * k)) % 256

\* x modulo n (unsigned), 1 <= n <= 32768
ModU(x, n) == (((Hi(x) % n) * (65536 % n)) + Lo(x)) % n

\* ---------------------------------------------------------- 16- and 8-bit
Rol16(x, n) == IF n = 0 THEN x ELSE ((x * (2 ^ n)) % 65536) + (x \div (2 ^ (16 - n)))
Ror16(x, n) == IF n = 0 THEN x ELSE Rol16(x, 16 - n)
Rol8(x, n) == IF n = 0 THEN x ELSE ((x * (2 ^ n)) % 256) + (x \div (2 ^ (8 - n)))
Ror8(x, n) == IF n = 0 THEN x ELSE Rol8(x, 8 - n)

\* ------------------------------------------------------------------- 64-bit
a ^^ b == <<a[1] \oplus b[1], a[2] \oplus b[2]>>
a && b == <<a[1] & b[1], a[2] & b[2]>>
a || b == <<a[1] | b[1], a[2] | b[2]>>
Not64(a) == <<Not(a[1]), Not(a[2])>>
a \uplus b == LET l == a[2] ++ b[2]
                  c == IF LtU(l, a[2]) THEN 1 ELSE 0
              IN <<(a[1] ++ b[1]) ++ c, l>>
Neg64(a) == Not64(a) \uplus <<0, 1>>
a \ominus b == a \uplus Neg64(b)
\* 0 <= n <= 63
Shl64(a, n) == LET Twice(x, i) == x \uplus x IN Iter(Twice, a, n)
Shr64(a, n) == IF n = 0 THEN a
               ELSE IF n >= 32 THEN <<0, Shr(a[1], n - 32)>>
               ELSE <<Shr(a[1], n), Shr(a[2], n) | Shl(a[1], 32 - n)>>
Rol64(a, n) == IF n = 0 THEN a ELSE Shl64(a, n) || Shr64(a, 64 - n)
Ror64(a, n) == IF n = 0 THEN a ELSE Shr64(a, n) || Shl64(a, 64 - n)
a \otimes b == LET step(acc, i) ==
                       IF Shr64(b, 63 - i)[2] % 2 = 1
                       THEN (acc \uplus acc) \uplus a ELSE acc \uplus acc
               IN Iter(step, <<0, 0>>, 64)
W64(n) == <<0, n>>
ByteOf64(x, k) == IF k >= 4 THEN ByteOf(x[1], k - 4) ELSE ByteOf(x[2], k)

\* ------------------------------------------------------------ byte strings
XorB(s, t) == [i \in 1..Len(s) |-> s[i] \oplus t[i]]
XorW(s, t) == [i \in 1..Len(s) |-> s[i] \oplus t[i]]     \* word32 sequences
XorW64(s, t) == [i \in 1..Len(s) |-> s[i] ^^ t[i]]

LOCAL W4(a, b, c, d) == Mk(a * 256 + b, c * 256 + d)
Be32(x) == <<Hi(x) \div 256, Hi(x) % 256, Lo(x) \div 256, Lo(x) % 256>>
Le32(x) == RevS(Be32(x))
Be64(x) == Be32(x[1]) \o Be32(x[2])
Le64(x) == RevS(Be64(x))
Be16(x) == <<x \div 256, x % 256>>
Le16(x) == <<x % 256, x \div 256>>
WordsBE16(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i-1] * 256 + s[2*i]]
WordsLE16(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i] * 256 + s[2*i-1]]
WordsBE32(s) == [i \in 1..(Len(s) \div 4) |-> W4(s[4*i-3], s[4*i-2], s[4*i-1], s[4*i])]
WordsLE32(s) == [i \in 1..(Len(s) \div 4) |-> W4(s[4*i], s[4*i-1], s[4*i-2], s[4*i-3])]
WordsBE64(s) == LET w == WordsBE32(s) IN [i \in 1..(Len(s) \div 8) |-> <<w[2*i-1], w[2*i]>>]
WordsLE64(s) == LET w == WordsLE32(s) IN [i \in 1..(Len(s) \div 8) |-> <<w[2*i], w[2*i-1]>>]
BytesBE16(ws) == FoldS(LAMBDA a, w : a \o Be16(w), <<>>, ws)
BytesLE16(ws) == FoldS(LAMBDA a, w : a \o Le16(w), <<>>, ws)
BytesBE32(ws) == FoldS(LAMBDA a, w : a \o Be32(w), <<>>, ws)
BytesLE32(ws) == FoldS(LAMBDA a, w : a \o Le32(w), <<>>, ws)
BytesBE64(ws) == FoldS(LAMBDA a, w : a \o Be64(w), <<>>, ws)
BytesLE64(ws) == FoldS(LAMBDA a, w : a \o Le64(w), <<>>, ws)

\* hexadecimal text, e.g. Hex("00ff") = <<0, 255>>
LOCAL Digit == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
    CHOOSE n \in 0..15 :
      <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[n + 1] = c]
Hex(str) == [i \in 1..(Len(str) \div 2) |->
    Digit[SubSeq(str, 2*i-1, 2*i-1)] * 16 + Digit[SubSeq(str, 2*i, 2*i)]]
\* tables of words, written most significant byte first
HexW16(str) == WordsBE16(Hex(str))
HexW32(str) == WordsBE32(Hex(str))
HexW64(str) == WordsBE64(Hex(str))

\* multiplication in GF(2^8) modulo x^8 + ... given by poly (low 8 bits), e.g. 27 for AES
LOCAL XTime(x, poly) == IF x >= 128 THEN ((x - 128) * 2) \oplus poly ELSE x * 2
GMul(a, b, poly) ==
    LET step(acc, i) == LET d == XTime(acc, poly)
                        IN IF (b \div (2 ^ (7 - i))) % 2 = 1 THEN d \oplus a ELSE d
    IN Iter(step, 0, 8)
=============================================================================

-------------------------------- MODULE Misc --------------------------------
(* PKCS #7 padding, constant-time comparison, wiping. *)
EXTENDS Bytes
\* padded message, or <<>> when it does not fit into max bytes
PadAdd(m, pad, max) == LET k == pad - (Len(m) % pad)
                       IN IF Len(m) + k > max THEN <<>> ELSE m \o Rep(k % 256, k)
\* length without the padding; malformed padding (0, longer than the data, bytes that differ): the whole length
PadRem(m) == LET n == Len(m)
                 k == m[n]
                 okay == k # 0 /\ k <= n /\ (\A i \in (n - k) + 1 .. n : m[i] = k)
             IN IF n = 0 THEN 0 ELSE IF okay THEN n - k ELSE n
Wiped(m, off, k) == Patch(m, off, Zeros(k))

\* ------------------------------------------------------ byte order, rotation
\* a word is a byte string, most significant byte first; rotation by n bits
LOCAL Bit(w, i) == LET k == Len(w) - (i \div 8) IN (w[k] \div (2 ^ (i % 8))) % 2      \* bit i, 0 the least significant
LOCAL FromBits(f(_), n) == Tab(LAMBDA k : LET b == 8 * (n - k) IN
       ((((((f(b) + (2 * f(b + 1))) + (4 * f(b + 2))) + (8 * f(b + 3))) + (16 * f(b + 4))) + (32 * f(b + 5))) + (64 * f(b + 6))) + (128 * f(b + 7)), n)
Rotate(dir, n, w) == LET N == 8 * Len(w)
                         L(i) == Bit(w, (i + (N - (n % N))) % N)
                         R(i) == Bit(w, (i + n) % N)
                     IN IF dir = "L" THEN FromBits(L, Len(w)) ELSE FromBits(R, Len(w))
\* bytes to words of k bytes (each written most significant byte first); missing bytes are zero
LoadArray(dir, k, s) == FoldS(LAMBDA a, c : a \o (IF dir = "B" THEN PadTo(c, k) ELSE RevS(PadTo(c, k))), <<>>, Chunks(s, k))
\* n bytes from offset off of the words' byte string
StoreArray(dir, k, w, off, n) == Slice(FoldS(LAMBDA a, c : a \o (IF dir = "B" THEN c ELSE RevS(c)), <<>>, Chunks(w, k)), off, n)

\* ----------------------------------------------- statistics of 4096 random bytes
LOCAL Sq(x) == x * x
LOCAL Pop == Tab(LAMBDA x : LET b(i) == ((x - 1) \div (2 ^ i)) % 2 IN ((((((b(0) + b(1)) + b(2)) + b(3)) + b(4)) + b(5)) + b(6)) + b(7), 256)
\* bit changes inside a byte
LOCAL Inn == Tab(LAMBDA x : LET b(i) == ((x - 1) \div (2 ^ i)) % 2
                                d(i) == IF b(i) = b(i + 1) THEN 0 ELSE 1 IN (((((d(0) + d(1)) + d(2)) + d(3)) + d(4)) + d(5)) + d(6), 256)
Stats(m) ==
    LET f(a, x) == [a EXCEPT !.sum = @ + x, !.bits = @ + Pop[x + 1], !.i = @ + 1,
                             !.flips = (@ + Inn[x + 1]) + (IF a.prev % 2 = x \div 128 THEN 0 ELSE 1),
                             !.same = IF a.prev = x THEN @ + 1 ELSE @,
                             \* serial correlation about the mean 127.5, in halves
                             !.cov = @ + ((((2 * a.prev) - 255) * ((2 * x) - 255)) \div 4),
                             !.cnt = [@ EXCEPT ![x + 1] = @ + 1], !.last = [@ EXCEPT ![x + 1] = a.i], !.prev = x]
        z == FoldS(f, [sum |-> 0, bits |-> 0, i |-> 0, flips |-> 0, same |-> 0, cov |-> 0, prev |-> 0,
                       cnt |-> Zeros(256), last |-> Zeros(256)], m)
        chi(a, c) == a + Sq(c - 16)
        gap(a, i) == a + (IF z.cnt[i + 1] = 0 THEN 0 ELSE (16 * z.last[i + 1]) \div z.cnt[i + 1])
    IN [sum |-> z.sum, bits |-> z.bits, flips |-> z.flips, same |-> z.same, cov |-> z.cov \div 4096,
        chi |-> FoldS(chi, 0, z.cnt) \div 16, gap |-> (Iter(gap, 0, 256) \div 256) \div 16]
LOCAL In(x, a, b) == a <= x /\ x <= b
\* every statistic is well within what is usual (variance of a byte: 5461)
GoodSample(m) == LET s == Stats(m)
                 IN /\ In(s.sum, 4096 * 126, 4096 * 129) /\ In(s.bits, 16200, 16560) /\ In(s.chi, 205, 300) /\ In(s.flips, 16200, 16560)
                    /\ In(s.gap, 215, 300) /\ s.same < 100 /\ In(s.cov, -350, 350)
\* some statistic is far out
Defective(m) == LET s == Stats(m)
                IN \/ ~In(s.sum, 4096 * 123, 4096 * 132) \/ ~In(s.bits, 15900, 16860) \/ ~In(s.chi, 170, 380) \/ ~In(s.flips, 15900, 16860)
                   \/ ~In(s.gap, 150, 370) \/ s.same > 600 \/ ~In(s.cov, -900, 900)
=============================================================================

-------------------------------- MODULE Kdf --------------------------------
(* PBKDF2 (RFC 8018) over any MAC with a fixed largest tag, and scrypt (RFC 7914) over it. *)
EXTENDS Bytes
LOCAL M == INSTANCE Mac
\* -1 (refused) when the PRF has no fixed output length
PbOk(n, b) == M!MInfo(n, b).mt # 0
\* bytes lo..len-1 of the derived key (block i starts at byte (i - 1) * x)
Pbkdf2From(n, b, r, iter, pass, salt, lo, len) ==
    LET x == M!MInfo(n, b).mt
        b0 == lo \div x
        prf0 == M!MNew(n, b, r, pass, x)
        prf(m) == M!MTag(M!MIn(prf0, m), x).o
        blk(i) == LET u1 == prf(salt \o Be32(i))
                      f(a, j) == LET u == prf(a.u) IN [u |-> u, t |-> XorB(a.t, u)]
                  IN Iter(f, [u |-> u1, t |-> u1], iter - 1).t
        g(o, i) == o \o blk((b0 + i) + 1)
    IN Drop(Take(Iter(g, <<>>, ((len + (x - 1)) \div x) - b0), len - (b0 * x)), lo - (b0 * x))
Pbkdf2(n, b, r, iter, pass, salt, len) == Pbkdf2From(n, b, r, iter, pass, salt, 0, len)

\* ------------------------------------------------------------------- scrypt
LOCAL QR(x, a, b, c, d) ==
    LET b1 == x[b] \oplus Rol(x[a] ++ x[d], 7)
        c1 == x[c] \oplus Rol(b1 ++ x[a], 9)
        d1 == x[d] \oplus Rol(c1 ++ b1, 13)
        a1 == x[a] \oplus Rol(d1 ++ c1, 18)
    IN [x EXCEPT ![a] = a1, ![b] = b1, ![c] = c1, ![d] = d1]
LOCAL Dbl(x) ==
    LET y == QR(QR(QR(QR(x, 1, 5, 9, 13), 6, 10, 14, 2), 11, 15, 3, 7), 16, 4, 8, 12)
    IN QR(QR(QR(QR(y, 1, 2, 3, 4), 6, 7, 8, 5), 11, 12, 9, 10), 16, 13, 14, 15)
LOCAL Salsa8(x) == LET f(y, i) == Dbl(y)
                       p == Iter(f, x, 4)
                   IN Tab(LAMBDA i : p[i] ++ x[i], 16)
\* a block is a sequence of 32 r words
LOCAL BlockMix(b, r) ==
    LET f(a, i) == LET y == Salsa8(XorW(a.x, Slice(b, 16 * i, 16)))
                   IN IF i % 2 = 0 THEN [x |-> y, e |-> a.e \o y, o |-> a.o] ELSE [x |-> y, e |-> a.e, o |-> a.o \o y]
        z == Iter(f, [x |-> Slice(b, 16 * ((2 * r) - 1), 16), e |-> <<>>, o |-> <<>>], 2 * r)
    IN z.e \o z.o
LOCAL SMix(b, r, n) ==
    LET \* V, in chunks of 256 (the copy of a long sequence costs)
        f(a, i) == LET w == Append(a.w, a.x)
                   IN IF Len(w) = 256 THEN [x |-> BlockMix(a.x, r), v |-> Append(a.v, w), w |-> <<>>]
                      ELSE [x |-> BlockMix(a.x, r), v |-> a.v, w |-> w]
        a1 == Iter(f, [x |-> WordsLE32(b), v |-> <<>>, w |-> <<>>], n)
        V == Append(a1.v, a1.w)
        \* n is a power of two: Integerify modulo n is in the low word
        g(x, i) == LET j == x[(32 * r) - 15] & (n - 1) IN BlockMix(XorW(x, V[(j \div 256) + 1][(j % 256) + 1]), r)
    IN BytesLE32(Iter(g, a1.x, n))
Scrypt(mn, mb, rounds, n, r, p, pass, salt, len) ==
    LET b == Pbkdf2(mn, mb, rounds, 1, pass, salt, (128 * r) * p)
        c == FoldS(LAMBDA a, x : a \o SMix(x, r, n), <<>>, BlocksOf(b, 128 * r))
    IN Pbkdf2(mn, mb, rounds, 1, pass, c, len)
=============================================================================

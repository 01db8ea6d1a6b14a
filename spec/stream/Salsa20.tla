------------------------------ MODULE Salsa20 ------------------------------
(* Salsa20 with keys of any length 1..32 (repeated to 32 bytes); nonces of more than 8 bytes: XSalsa20. *)
EXTENDS Bytes
LOCAL QR(x, a, b, c, d) ==
    LET b1 == x[b] \oplus Rol(x[a] ++ x[d], 7)
        c1 == x[c] \oplus Rol(b1 ++ x[a], 9)
        d1 == x[d] \oplus Rol(c1 ++ b1, 13)
        a1 == x[a] \oplus Rol(d1 ++ c1, 18)
    IN [x EXCEPT ![a] = a1, ![b] = b1, ![c] = c1, ![d] = d1]
LOCAL Col(x) == QR(QR(QR(QR(x, 1, 5, 9, 13), 6, 10, 14, 2), 11, 15, 3, 7), 16, 4, 8, 12)
LOCAL Row(x) == QR(QR(QR(QR(x, 1, 2, 3, 4), 6, 7, 8, 5), 11, 12, 9, 10), 16, 13, 14, 15)
LOCAL Perm(x, r) == LET f(y, i) == IF i % 2 = 0 THEN Col(y) ELSE Row(y) IN Iter(f, x, r)
LOCAL R(r) == IF r = 0 THEN 20 ELSE r
LOCAL Const(k) == WordsLE32(<<101, 120, 112, 97, 110, 100, 32, 48 + (Len(k) \div 10), 48 + (Len(k) % 10), 45, 98, 121, 116, 101, 32, 107>>)
LOCAL Key32(k) == WordsLE32(Tab(LAMBDA i : k[((i - 1) % Len(k)) + 1], 32))
LOCAL Mat(c, k, n) == ((((((<<c[1]>> \o Slice(k, 0, 4)) \o <<c[2]>>) \o n) \o <<c[3]>>) \o Slice(k, 4, 4)) \o <<c[4]>>)
Start(r, key, iv) ==
    LET n == Len(iv)
        c == Const(key)
        k == Key32(key)
    IN IF n > 8
       THEN LET h == Perm(Mat(c, k, WordsLE32(PadTo(Take(iv, Min2(n, 16)), 16))), R(r))
                sub == <<h[1], h[6], h[11], h[16], h[7], h[8], h[9], h[10]>>
                rest == IF n > 16 THEN Drop(iv, 16) ELSE <<>>
            IN Mat(c, sub, WordsLE32(PadTo(rest, 16)))
       ELSE Mat(c, k, WordsLE32(PadTo(iv, 16)))
KS(r, x) == LET p == Perm(x, R(r)) IN BytesLE32(Tab(LAMBDA i : p[i] ++ x[i], 16))
Inc(x) == LET c == x[9] ++ 1 IN [x EXCEPT ![9] = c, ![10] = IF c = 0 THEN @ ++ 1 ELSE @]
\* n < 2^31 steps of the counter
Skip(x, n) == LET c == x[9] ++ n IN [x EXCEPT ![9] = c, ![10] = IF LtU(c, x[9]) THEN @ ++ 1 ELSE @]
=============================================================================

------------------------------ MODULE Chacha ------------------------------
(* ChaCha with keys of any length 1..32 (repeated to 32 bytes), nonces of up to 24 bytes:
   up to 8 with a 64-bit counter, 9..12 with a 32-bit counter, more is XChaCha.
   r counts single rounds; odd ones are column rounds, even ones diagonal rounds. *)
EXTENDS Bytes
LOCAL QR(x, a, b, c, d) ==
    LET a1 == x[a] ++ x[b]   d1 == Rol(x[d] \oplus a1, 16)
        c1 == x[c] ++ d1     b1 == Rol(x[b] \oplus c1, 12)
        a2 == a1 ++ b1       d2 == Rol(d1 \oplus a2, 8)
        c2 == c1 ++ d2       b2 == Rol(b1 \oplus c2, 7)
    IN [x EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
LOCAL Col(x) == QR(QR(QR(QR(x, 1, 5, 9, 13), 2, 6, 10, 14), 3, 7, 11, 15), 4, 8, 12, 16)
LOCAL Dia(x) == QR(QR(QR(QR(x, 1, 6, 11, 16), 2, 7, 12, 13), 3, 8, 9, 14), 4, 5, 10, 15)
LOCAL Perm(x, r) == LET f(y, i) == IF i % 2 = 0 THEN Col(y) ELSE Dia(y) IN Iter(f, x, r)
LOCAL R(r) == IF r = 0 THEN 20 ELSE r
\* "expand NN-byte k" with the length of the key in decimal
LOCAL Const(k) == <<101, 120, 112, 97, 110, 100, 32, 48 + (Len(k) \div 10), 48 + (Len(k) % 10), 45, 98, 121, 116, 101, 32, 107>>
LOCAL Key32(k) == Tab(LAMBDA i : k[((i - 1) % Len(k)) + 1], 32)
\* the initial matrix
Start(r, key, iv) ==
    LET n == Len(iv)
        k == Key32(key)
    IN IF n > 16 \/ n > 12
       THEN LET h == Perm(WordsLE32((Const(key) \o k) \o PadTo(Take(iv, Min2(n, 16)), 16)), R(r))
                sub == (Slice(h, 0, 4) \o Slice(h, 12, 4))
                rest == IF n > 16 THEN Drop(iv, 16) ELSE <<>>
            IN ((WordsLE32(Const(key)) \o sub) \o <<0, 0>>) \o WordsLE32(PadTo(rest, 8))
       ELSE IF n > 8 THEN WordsLE32(((Const(key) \o k) \o Zeros(4)) \o PadTo(iv, 12))
       ELSE WordsLE32(((Const(key) \o k) \o Zeros(8)) \o PadTo(iv, 8))
KS(r, x) == LET p == Perm(x, R(r)) IN BytesLE32(Tab(LAMBDA i : p[i] ++ x[i], 16))
Inc(x) == LET c == x[13] ++ 1 IN [x EXCEPT ![13] = c, ![14] = IF c = 0 THEN @ ++ 1 ELSE @]
\* n < 2^31 steps of the counter
Skip(x, n) == LET c == x[13] ++ n IN [x EXCEPT ![13] = c, ![14] = IF LtU(c, x[13]) THEN @ ++ 1 ELSE @]
=============================================================================

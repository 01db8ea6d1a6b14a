------------------------------ MODULE Serpent ------------------------------
(* Serpent (Anderson, Biham, Knudsen), little-endian; round counts are rounded up to a multiple of 8. *)
EXTENDS Bytes
LOCAL B == INSTANCE BitSlice
LOCAL Anfs == Tab(LAMBDA i : B!Anf(B!SBoxOf(<<"38f1a65bed42709c", "fc27905a1be86d34", "86793cafd1e40b52", "0fb8c963d124a75e", "1f83c0b6254a9e7d", "f52b4a9c03e8d671", "72c5846be91fd3a0", "1df0e82b74ca9356">>[i])), 8)
LOCAL S(i, x) == B!Apply(Anfs[(i % 8) + 1], x)
LOCAL Phi == HexW32("9e3779b9")[1]
LOCAL LT(x) ==
    LET a == Rol(x[1], 13)
        c == Rol(x[3], 3)
        b == Rol((x[2] \oplus a) \oplus c, 1)
        d == Rol((x[4] \oplus c) \oplus Shl(a, 3), 7)
        a2 == Rol((a \oplus b) \oplus d, 5)
        c2 == Rol((c \oplus d) \oplus Shl(b, 7), 22)
    IN <<a2, b, c2, d>>
Setup(r, key) ==
    LET n == IF r = 0 THEN 32 ELSE ((r + 7) \div 8) * 8
        k0 == WordsLE32(IF Len(key) < 32 THEN PadTo(Append(key, 1), 32) ELSE key)
        f(w, i) == LET t == Len(w) + 1
                   IN Append(w, Rol((((w[t - 8] \oplus w[t - 5]) \oplus (w[t - 3] \oplus w[t - 1])) \oplus Phi) \oplus i, 11))
        w == Drop(Iter(f, k0, 4 * (n + 1)), 8)
    IN [n |-> n, k |-> Tab(LAMBDA i : S((8003 - (i - 1)), Slice(w, 4 * (i - 1), 4)), n + 1)]
Enc(ks, pt) ==
    LET f(x, i) == LT(S(i, XorW(x, ks.k[i + 1])))
        e == Iter(f, WordsLE32(pt), ks.n - 1)
    IN BytesLE32(XorW(S(ks.n - 1, XorW(e, ks.k[ks.n])), ks.k[ks.n + 1]))
============================================================================

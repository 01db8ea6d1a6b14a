------------------------------ MODULE TraxM ------------------------------
(* TRAX-M (the 128-bit block member of the TRAX family), 64-bit tweak, 14 steps by default.  Setup clears the tweak. *)
EXTENDS Bytes
\* the 64-bit Alzette ARX-box
Alzette(x, y, c) ==
    LET x1 == x ++ Ror(y, 31)   y1 == y \oplus Ror(x1, 24)
        a == x1 \oplus c
        x2 == a ++ Ror(y1, 17)  y2 == y1 \oplus Ror(x2, 17)
        b == x2 \oplus c
        x3 == b ++ y2           y3 == y2 \oplus Ror(x3, 31)
        d == x3 \oplus c
        x4 == d ++ Ror(y3, 24)  y4 == y3 \oplus Ror(x4, 16)
    IN <<x4 \oplus c, y4>>

LOCAL RC == HexW32("b7e15162bf71588038b4da56324e7738bb1185eb4f7c7b57cfbfa1c8c2b3293d")
Setup(r, key) ==
    LET n == IF r = 0 THEN 14 ELSE r
        nxt(k, i) == << k[2], (k[3] \oplus k[4]) \oplus i, k[4], (k[1] ++ k[2]) ++ RC[(i % 8) + 1] >>
        f(st, i) == LET q == nxt(st[1], i) IN <<q, Append(st[2], q)>>
        k0 == WordsLE32(PadTo(key, 16))
    IN [n |-> n, k |-> Iter(f, <<k0, <<k0>> >>, n)[2]]
Enc(ks, tweak, pt) ==
    LET t == WordsLE32(PadTo(tweak, 16))
        f(s, i) ==
            LET s1 == XorW(IF i % 2 = 1 THEN XorW(s, t) ELSE s, ks.k[i + 1])
                a == Alzette(s1[1], s1[2], RC[((2 * i) % 8) + 1])
                b == Alzette(s1[3], s1[4], RC[(((2 * i) + 1) % 8) + 1])
            IN XorW(a, b) \o a
    IN BytesLE32(XorW(Iter(f, WordsLE32(pt), ks.n), ks.k[ks.n + 1]))
==========================================================================

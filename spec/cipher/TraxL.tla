------------------------------ MODULE TraxL ------------------------------
(* TRAX-L-17 (Beierle et al.): 256-bit block, 128-bit tweak.  Setup clears the tweak. *)
EXTENDS Bytes
\* the 64-bit Alzette ARX-box
Alzette(x, y, c) ==
    LET x1 == x ++ Ror(y, 31)   y1 == y \oplus Ror(x1, 24)
        a == x1 \oplus c
        x2 == a ++ Ror(y1, 17)  y2 == y1 \oplus Ror(x2, 17)
        b == x2 \oplus c
        x3 == b ++ y2           y3 == y2 \oplus Ror(x3, 31)
        d == x3 \oplus c
        x4 == d ++ Ror(y3, 24)  y4 == y3 \oplus Ror(x4, 16)
    IN <<x4 \oplus c, y4>>

LOCAL RC == HexW32("b7e15162bf71588038b4da56324e7738bb1185eb4f7c7b57cfbfa1c8c2b3293d")
Setup(r, key) ==
    LET n == IF r = 0 THEN 17 ELSE r
        nxt(k, i) == << k[2], (k[3] \oplus k[4]) \oplus i, k[4], (k[5] ++ k[6]) ++ RC[(((2 * i) + 1) % 8) + 1],
                        k[6], (k[7] \oplus k[8]) \oplus Shl(i, 16), k[8], (k[1] ++ k[2]) ++ RC[((2 * i) % 8) + 1] >>
        f(st, i) == LET q == nxt(st[1], i) IN <<q, Append(st[2], q)>>
        k0 == WordsLE32(PadTo(key, 32))
    IN [n |-> n, k |-> Iter(f, <<k0, <<k0>> >>, n)[2]]
LOCAL Ell(x) == Rol(x \oplus Shl(x, 16), 16)
Enc(ks, tweak, pt) ==
    LET t == WordsLE32(PadTo(tweak, 32))
        f(s, i) ==
            LET s1 == XorW(IF i % 2 = 1 THEN XorW(s, t) ELSE s, ks.k[i + 1])
                c(j) == RC[(((4 * i) + j) % 8) + 1]
                a == Alzette(s1[1], s1[2], c(0))
                b == Alzette(s1[3], s1[4], c(1))
                d == Alzette(s1[5], s1[6], c(2))
                e == Alzette(s1[7], s1[8], c(3))
                xt == Ell(d[1] \oplus e[1])
                yt == Ell(d[2] \oplus e[2])
                a1 == <<a[1] \oplus yt, a[2] \oplus xt>>
                b1 == <<b[1] \oplus yt, b[2] \oplus xt>>
            IN ((e \o d) \o a1) \o b1
    IN BytesLE32(XorW(Iter(f, WordsLE32(pt), ks.n), ks.k[ks.n + 1]))
==========================================================================

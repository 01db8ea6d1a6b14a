------------------------------ MODULE Crax ------------------------------
(* CRAX-S (Beierle et al., Alzette), 10 steps by default, little-endian. *)
EXTENDS Bytes
\* the 64-bit Alzette ARX-box
Alzette(x, y, c) ==
    LET x1 == x ++ Ror(y, 31)   y1 == y \oplus Ror(x1, 24)
        a == x1 \oplus c
        x2 == a ++ Ror(y1, 17)  y2 == y1 \oplus Ror(x2, 17)
        b == x2 \oplus c
        x3 == b ++ y2           y3 == y2 \oplus Ror(x3, 31)
        d == x3 \oplus c
        x4 == d ++ Ror(y3, 24)  y4 == y3 \oplus Ror(x4, 16)
    IN <<x4 \oplus c, y4>>

LOCAL RC == HexW32("b7e15162bf71588038b4da56324e7738bb1185eb")
Setup(r, key) == [n |-> IF r = 0 THEN 10 ELSE r, k |-> WordsLE32(PadTo(key, 16))]
LOCAL AddKey(ks, s, i) == LET o == IF i % 2 = 1 THEN 2 ELSE 0 IN <<s[1] \oplus ks.k[o + 1], s[2] \oplus ks.k[o + 2]>>
Enc(ks, pt) ==
    LET f(s, i) == LET z == AddKey(ks, <<s[1] \oplus i, s[2]>>, i) IN Alzette(z[1], z[2], RC[(i % 5) + 1])
    IN BytesLE32(AddKey(ks, Iter(f, WordsLE32(pt), ks.n), ks.n))
=========================================================================

------------------------------ MODULE Simon64 ------------------------------
(* SIMON64 (Beaulieu et al.): 32-bit words, at least 3 key words (zero-padded); z is the published constant sequence. *)
EXTENDS Bytes
LOCAL Z == <<"10101111011100000011010010011000101000010001111110010110110011", "11011011101011000110010111100000010010001010011100110100001111">>
Setup(r, key) ==
    LET n == IF r = 0 THEN (36 + (2 * ((Len(key) + 3) \div 4))) ELSE r
        m == Max2(3, (Len(key) + 3) \div 4)
        \* sequence bits 1, 0; with fewer rounds than key words only the first ones are used
        zb(i) == LET p == (i % 62) + 1 IN (IF SubSeq(Z[m - 2], p, p) = "1" THEN 1 ELSE 0)
        nxt(k, j) == LET i == j + m
                         t0 == Ror(k[i], 3)
                         t1 == IF m = 4 THEN t0 \oplus k[i - 2] ELSE t0
                         t2 == t1 \oplus Ror(t1, 1)
                         c == (-1 \oplus 3) \oplus zb(j)
                     IN Append(k, (t2 \oplus k[(i - m) + 1]) \oplus c)
        kw == WordsLE32(PadTo(key, 4 * m))
    IN [n |-> n, k |-> IF n <= m THEN kw ELSE Iter(nxt, kw, n - m)]
Enc(ks, pt) ==
    LET g(x) == (Rol(x, 1) & Rol(x, 8)) \oplus Rol(x, 2)
        f(s, i) == <<(s[2] \oplus g(s[1])) \oplus ks.k[i + 1], s[1]>>
        w == WordsLE32(pt)
        e == Iter(f, <<w[2], w[1]>>, ks.n)
    IN BytesLE32(<<e[2], e[1]>>)
============================================================================

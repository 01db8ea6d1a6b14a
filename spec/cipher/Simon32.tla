------------------------------ MODULE Simon32 ------------------------------
(* SIMON32 (Beaulieu et al.): 16-bit words, at least 4 key words (zero-padded); z is the published constant sequence. *)
EXTENDS Bytes
LOCAL Z == <<"11111010001001010110000111001101111101000100101011000011100110">>
Setup(r, key) ==
    LET n == IF r = 0 THEN (32) ELSE r
        m == Max2(4, (Len(key) + 1) \div 2)
        \* sequence bits 1, 0; with fewer rounds than key words only the first ones are used
        zb(i) == LET p == (i % 62) + 1 IN (IF SubSeq(Z[1], p, p) = "1" THEN 1 ELSE 0)
        nxt(k, j) == LET i == j + m
                         t0 == Ror16(k[i], 3)
                         t1 == IF m = 4 THEN t0 \oplus k[i - 2] ELSE t0
                         t2 == t1 \oplus Ror16(t1, 1)
                         c == (65535 \oplus 3) \oplus zb(j)
                     IN Append(k, (t2 \oplus k[(i - m) + 1]) \oplus c)
        kw == WordsLE16(PadTo(key, 2 * m))
    IN [n |-> n, k |-> IF n <= m THEN kw ELSE Iter(nxt, kw, n - m)]
Enc(ks, pt) ==
    LET g(x) == (Rol16(x, 1) & Rol16(x, 8)) \oplus Rol16(x, 2)
        f(s, i) == <<(s[2] \oplus g(s[1])) \oplus ks.k[i + 1], s[1]>>
        w == WordsLE16(pt)
        e == Iter(f, <<w[2], w[1]>>, ks.n)
    IN BytesLE16(<<e[2], e[1]>>)
============================================================================

------------------------------ MODULE Simon128 ------------------------------
(* SIMON128 (Beaulieu et al.): 64-bit words, at least 2 key words (zero-padded); z is the published constant sequence. *)
EXTENDS Bytes
LOCAL Z == <<"10101111011100000011010010011000101000010001111110010110110011", "11011011101011000110010111100000010010001010011100110100001111", "11010001111001101011011000100000010111000011001010010011101111">>
Setup(r, key) ==
    LET n == IF r = 0 THEN (CASE (Len(key) + 7) \div 8 = 3 -> 69 [] (Len(key) + 7) \div 8 = 4 -> 72 [] OTHER -> 68) ELSE r
        m == Max2(2, (Len(key) + 7) \div 8)
        \* sequence bits 1, 0; with fewer rounds than key words only the first ones are used
        zb(i) == LET p == (i % 62) + 1 IN W64(IF SubSeq(Z[m - 1], p, p) = "1" THEN 1 ELSE 0)
        nxt(k, j) == LET i == j + m
                         t0 == Ror64(k[i], 3)
                         t1 == IF m = 4 THEN t0 ^^ k[i - 2] ELSE t0
                         t2 == t1 ^^ Ror64(t1, 1)
                         c == (<<-1, -1>> ^^ W64(3)) ^^ zb(j)
                     IN Append(k, (t2 ^^ k[(i - m) + 1]) ^^ c)
        kw == WordsLE64(PadTo(key, 8 * m))
    IN [n |-> n, k |-> IF n <= m THEN kw ELSE Iter(nxt, kw, n - m)]
Enc(ks, pt) ==
    LET g(x) == (Rol64(x, 1) && Rol64(x, 8)) ^^ Rol64(x, 2)
        f(s, i) == <<(s[2] ^^ g(s[1])) ^^ ks.k[i + 1], s[1]>>
        w == WordsLE64(pt)
        e == Iter(f, <<w[2], w[1]>>, ks.n)
    IN BytesLE64(<<e[2], e[1]>>)
=============================================================================

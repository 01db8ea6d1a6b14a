------------------------------ MODULE Xtea ------------------------------
(* XTEA, big-endian; r counts half rounds (Feistel steps), 64 by default.  A key shorter than 16 bytes is used cyclically by words. *)
EXTENDS Bytes
LOCAL Delta == HexW32("9e3779b9")[1]
Setup(r, key) ==
    LET n == IF r = 0 THEN 64 ELSE r
        m == (Len(key) + 3) \div 4
        k == WordsBE32(PadTo(key, 4 * m))
        \* step 2j uses sum j*Delta, index sum mod m; step 2j+1 uses (j+1)*Delta, index (sum >> 11) mod m
        sub(i) == LET c == (i \div 2) ** Delta
                  IN c ++ k[ModU(IF i % 2 = 1 THEN c ELSE Shr(c, 11), m) + 1]
    IN [n |-> n, k |-> Tab(sub, n)]
Enc(ks, pt) ==
    LET g(x) == (Shl(x, 4) \oplus Shr(x, 5)) ++ x
        f(s, i) == IF i % 2 = 0 THEN <<s[1] ++ (g(s[2]) \oplus ks.k[i + 1]), s[2]>>
                   ELSE <<s[1], s[2] ++ (g(s[1]) \oplus ks.k[i + 1])>>
    IN BytesBE32(Iter(f, WordsBE32(pt), ks.n))
=========================================================================

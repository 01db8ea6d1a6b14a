------------------------------ MODULE Tea ------------------------------
(* TEA (Wheeler, Needham 1994), big-endian; r counts cycles, 32 by default; keys are zero-padded. *)
EXTENDS Bytes
LOCAL Delta == HexW32("9e3779b9")[1]
Setup(r, key) == [n |-> IF r = 0 THEN 32 ELSE r, k |-> WordsBE32(PadTo(key, 16))]
Enc(ks, pt) ==
    LET k == ks.k
        h(x, a, b, c) == ((Shl(x, 4) ++ a) \oplus (x ++ c)) \oplus (Shr(x, 5) ++ b)
        f(s, i) == LET c == s[3] ++ Delta
                       x0 == s[1] ++ h(s[2], k[1], k[2], c)
                       x1 == s[2] ++ h(x0, k[3], k[4], c)
                   IN <<x0, x1, c>>
        w == WordsBE32(pt)
        e == Iter(f, <<w[1], w[2], 0>>, ks.n)
    IN BytesBE32(<<e[1], e[2]>>)
========================================================================

------------------------------ MODULE Rc6 ------------------------------
(* RC6-32/r (Rivest et al. 1998), little-endian. *)
EXTENDS Bytes
LOCAL P == HexW32("b7e15163")[1]
LOCAL Q == HexW32("9e3779b9")[1]
Setup(r, key) ==
    LET n == IF r = 0 THEN 20 ELSE r
        t == 2 * (n + 2)
        c == (Len(key) + 3) \div 4
        f(st, v) == LET i == (v % t) + 1
                        j == (v % c) + 1
                        a == Rol((st[1][i] ++ st[3]) ++ st[4], 3)
                        b == Rol((st[2][j] ++ a) ++ st[4], ByteOf(a ++ st[4], 0) % 32)
                    IN <<[st[1] EXCEPT ![i] = a], [st[2] EXCEPT ![j] = b], a, b>>
    IN [n |-> n, k |-> Iter(f, <<Tab(LAMBDA i : P ++ ((i - 1) ** Q), t), WordsLE32(PadTo(key, 4 * c)), 0, 0>>,
                            3 * Max2(t, c))[1]]

Enc(ks, pt) ==
    LET k == ks.k
        w == WordsLE32(pt)
        f(s, i) == LET m0 == Rol(s[2] ** (Shl(s[2], 1) ++ 1), 5)
                       m1 == Rol(s[4] ** (Shl(s[4], 1) ++ 1), 5)
                       a == Rol(s[1] \oplus m0, ByteOf(m1, 0) % 32) ++ k[(2 * i) + 3]
                       c == Rol(s[3] \oplus m1, ByteOf(m0, 0) % 32) ++ k[(2 * i) + 4]
                   IN <<s[2], c, s[4], a>>
        e == Iter(f, <<w[1], w[2] ++ k[1], w[3], w[4] ++ k[2]>>, ks.n)
    IN BytesLE32(<<e[1] ++ k[(2 * ks.n) + 3], e[2], e[3] ++ k[(2 * ks.n) + 4], e[4]>>)
========================================================================

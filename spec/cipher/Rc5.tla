------------------------------ MODULE Rc5 ------------------------------
(* RC5-32/r (Rivest 1994), little-endian. *)
EXTENDS Bytes
LOCAL P == HexW32("b7e15163")[1]
LOCAL Q == HexW32("9e3779b9")[1]
Setup(r, key) ==
    LET n == IF r = 0 THEN 12 ELSE r
        t == 2 * (n + 1)
        c == (Len(key) + 3) \div 4
        f(st, v) == LET i == (v % t) + 1
                        j == (v % c) + 1
                        a == Rol((st[1][i] ++ st[3]) ++ st[4], 3)
                        b == Rol((st[2][j] ++ a) ++ st[4], ByteOf(a ++ st[4], 0) % 32)
                    IN <<[st[1] EXCEPT ![i] = a], [st[2] EXCEPT ![j] = b], a, b>>
    IN [n |-> n, k |-> Iter(f, <<Tab(LAMBDA i : P ++ ((i - 1) ** Q), t), WordsLE32(PadTo(key, 4 * c)), 0, 0>>,
                            3 * Max2(t, c))[1]]

Enc(ks, pt) ==
    LET k == ks.k
        w == WordsLE32(pt)
        f(s, i) == LET a == Rol(s[1] \oplus s[2], ByteOf(s[2], 0) % 32) ++ k[(2 * i) + 3]
                       b == Rol(s[2] \oplus a, ByteOf(a, 0) % 32) ++ k[(2 * i) + 4]
                   IN <<a, b>>
    IN BytesLE32(Iter(f, <<w[1] ++ k[1], w[2] ++ k[2]>>, ks.n))
========================================================================

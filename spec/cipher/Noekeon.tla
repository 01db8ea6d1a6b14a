------------------------------ MODULE Noekeon ------------------------------
(* Noekeon, direct-key mode, big-endian, at most 33 rounds (16 by default). *)
EXTENDS Bytes
LOCAL RC == Hex("801b366cd8ab4d9a2f5ebc63c697356ad4b37dfaefc5913972e4d3bd61c29f254a94")
Setup(r, key) == [n |-> IF r = 0 THEN 16 ELSE r, k |-> WordsBE32(PadTo(key, 16))]
LOCAL Mix(a, b) == LET t == a \oplus b IN t \oplus (Rol(t, 8) \oplus Ror(t, 8))
LOCAL Theta(k, x) ==
    LET t == Mix(x[1], x[3])
        y == << x[1] \oplus k[1], (x[2] \oplus t) \oplus k[2], x[3] \oplus k[3], (x[4] \oplus t) \oplus k[4] >>
        u == Mix(y[2], y[4])
    IN << y[1] \oplus u, y[2], y[3] \oplus u, y[4] >>
LOCAL Gamma(x) ==
    LET b == x[2] \oplus Not(x[4] | x[3])
        a == x[1] \oplus (x[3] & b)
        \* swap of the outer words
        c == x[3] \oplus ((x[4] \oplus b) \oplus a)
        b2 == b \oplus Not(a | c)
    IN << x[4] \oplus (c & b2), b2, c, a >>
Enc(ks, pt) ==
    LET rcAdd(x, i) == [x EXCEPT ![1] = x[1] \oplus RC[i + 1]]
        f(x, i) == LET t == Theta(ks.k, rcAdd(x, i))
                       g == Gamma(<<t[1], Rol(t[2], 1), Rol(t[3], 5), Rol(t[4], 2)>>)
                   IN <<g[1], Ror(g[2], 1), Ror(g[3], 5), Ror(g[4], 2)>>
    IN BytesBE32(Theta(ks.k, rcAdd(Iter(f, WordsBE32(pt), ks.n), ks.n)))
============================================================================

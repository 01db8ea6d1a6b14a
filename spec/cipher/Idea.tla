------------------------------ MODULE Idea ------------------------------
(* IDEA (Lai, Massey 1991), big-endian, 8 rounds by default. *)
EXTENDS Bytes
LOCAL Mul(a, b) ==   \* multiplication modulo 2^16 + 1, 0 stands for 2^16
    IF a = 0 THEN (65537 - b) % 65536
    ELSE IF b = 0 THEN (65537 - a) % 65536
    ELSE LET p == a ** b
             d == (p % 65536) - Shr(p, 16)
         IN (IF d < 0 THEN d + 65537 ELSE d) % 65536
LOCAL Add(a, b) == (a + b) % 65536
Setup(r, key) ==
    LET n == IF r = 0 THEN 8 ELSE r
        m == (6 * n) + 4
        \* the 128-bit key rotated left by 25 bits
        rot(k) == Tab(LAMBDA i : (Shl(k[(i % 8) + 1], 9) % 65536) | (k[((i + 1) % 8) + 1] \div 128), 8)
        f(st, i) == LET q == rot(st[1]) IN <<q, st[2] \o q>>
        k0 == WordsBE16(PadTo(key, 16))
    IN [n |-> n, k |-> Take(Iter(f, <<k0, k0>>, m \div 8)[2], m)]
Enc(ks, pt) ==
    LET f(x, i) ==
            LET k(j) == ks.k[(6 * i) + j]
                a == Mul(x[1], k(1))
                b == Add(x[2], k(2))
                c == Add(x[3], k(3))
                d == Mul(x[4], k(4))
                t0 == Mul(a \oplus c, k(5))
                t1 == Mul(Add(t0, b \oplus d), k(6))
                t2 == Add(t0, t1)
            IN <<a \oplus t1, c \oplus t1, b \oplus t2, d \oplus t2>>
        e == Iter(f, WordsBE16(pt), ks.n)
        q(j) == ks.k[(6 * ks.n) + j]
    IN BytesBE16(<<Mul(e[1], q(1)), Add(e[3], q(2)), Add(e[2], q(3)), Mul(e[4], q(4))>>)
=========================================================================

------------------------------ MODULE ThreeWay ------------------------------
(* 3-Way (Daemen), big-endian words, at most 11 rounds. *)
EXTENDS Bytes
LOCAL RC == HexW16("0b0b16162c2c5858b0b07171e2e2d5d5bbbb6767cece8d8d")
Setup(r, key) == [n |-> IF r = 0 THEN 11 ELSE r, k |-> WordsBE32(PadTo(key, 12))]
LOCAL Theta(x) ==
    LET s == (x[1] \oplus x[2]) \oplus x[3]
        c == Rol(s, 16) \oplus Rol(s, 8)
        t0 == ((Shl(x[1], 24) \oplus Shr(x[3], 8)) \oplus Shl(x[2], 8)) \oplus Shr(x[1], 24)
        t1 == ((Shl(x[2], 24) \oplus Shr(x[1], 8)) \oplus Shl(x[3], 8)) \oplus Shr(x[2], 24)
    IN << (x[1] \oplus c) \oplus t0, (x[2] \oplus c) \oplus t1, ((x[3] \oplus c) \oplus Shr(t0, 16)) \oplus Shl(t1, 16) >>
\* pi_1, gamma, pi_2
LOCAL PiGammaPi(x) ==
    LET b == x[2]   c == Rol(x[3], 1)   a == Rol(x[1], 22)
    IN << Rol(a \oplus (b | Not(c)), 1), b \oplus (c | Not(a)), Rol(c \oplus (a | Not(b)), 22) >>
LOCAL AddK(ks, x, i) == << (x[1] \oplus ks.k[1]) \oplus Shl(RC[i + 1], 16), x[2] \oplus ks.k[2], (x[3] \oplus ks.k[3]) \oplus RC[i + 1] >>
Enc(ks, pt) ==
    LET f(x, i) == PiGammaPi(Theta(AddK(ks, x, i)))
    IN BytesBE32(Theta(AddK(ks, Iter(f, WordsBE32(pt), ks.n), ks.n)))
=============================================================================

------------------------------ MODULE Saferpp ------------------------------
(* SAFER++ (Massey, Khachatrian, Kuregian 2000); keys are zero-padded to 16 or 32 bytes. *)
EXTENDS Bytes
\* 45^i modulo 257 (256 is written 0) and its inverse
LOCAL ExpT == LET f(s, i) == Append(s, (s[Len(s)] * 45) % 257) IN Tab(LAMBDA i : Iter(f, <<1>>, 255)[i] % 256, 256)
LOCAL LogT == LET e == ExpT IN Tab(LAMBDA v : (CHOOSE i \in 1..256 : e[i] = v - 1) - 1, 256)
LOCAL Exp(x) == ExpT[(x % 256) + 1]
LOCAL Log(x) == LogT[(x % 256) + 1]
\* one layer: positions in xs are added exclusively and go through Exp, the others are added and go through Log
LOCAL NonLin(x, k, k2) == Tab(LAMBDA j : IF (j % 4) < 2 THEN (Exp(x[j] \oplus k[j]) + k2[j]) % 256 ELSE Log(x[j] + k[j]) \oplus k2[j], Len(x))
LOCAL Final(x, k) == Tab(LAMBDA j : IF (j % 4) < 2 THEN x[j] \oplus k[j] ELSE (x[j] + k[j]) % 256, Len(x))
LOCAL Parity(s) == FoldS(LAMBDA a, b : a \oplus b, 0, s)

Setup(r, key) ==
    LET n == IF r = 0 THEN (IF Len(key) > 16 THEN 10 ELSE 7) ELSE r
        kp == PadTo(key, 32)
        k1 == Take(kp, 16)
        k2 == IF Len(key) > 16 THEN Drop(kp, 16) ELSE k1
        ka0 == Tab(LAMBDA i : Rol8(k2[i], 5), 16)
        ka == Append(ka0, Parity(ka0))
        kb == Append(k1, Parity(k1))
        rot6(s) == Tab(LAMBDA i : Rol8(s[i], 6), 17)
        \* key bias of subkey v
        bias(v, j) == LET e == Exp((17 * v) + j) IN IF v <= 15 THEN Exp(e) ELSE e
        f(st, q) == LET i == 2 * (q + 1)
                        a == rot6(st[1])
                        b == rot6(st[2])
                        ra == Tab(LAMBDA j : (a[(((i - 1) + (j - 1)) % 17) + 1] + bias(i, j)) % 256, 16)
                        rb == Tab(LAMBDA j : (b[((i + (j - 1)) % 17) + 1] + bias(i + 1, j)) % 256, 16)
                    IN <<a, b, (st[3] \o <<ra>>) \o <<rb>> >>
    IN [n |-> n, k |-> Iter(f, <<ka, kb, <<k1>> >>, n)[3]]
\* 4-PHT on positions p
LOCAL Pht4(x, p) ==
    LET a == x[p[1]]  b == x[p[2]]  c == x[p[3]]
        d == ((x[p[4]] + a) + (b + c)) % 256
    IN [[[[x EXCEPT ![p[1]] = (a + d) % 256] EXCEPT ![p[2]] = (b + d) % 256] EXCEPT ![p[3]] = (c + d) % 256] EXCEPT ![p[4]] = d]
LOCAL Groups == <<<<9, 6, 3, 16>>, <<1, 14, 11, 8>>, <<5, 2, 15, 12>>, <<13, 10, 7, 4>>, <<5, 14, 3, 4>>, <<9, 10, 15, 8>>, <<1, 6, 7, 12>>, <<13, 2, 11, 16>>>>
LOCAL Perm == <<5, 14, 3, 4, 9, 10, 15, 8, 1, 6, 7, 12, 13, 2, 11, 16>>
Enc(ks, pt) ==
    LET f(x, i) == LET y == NonLin(x, ks.k[(2 * i) + 1], ks.k[(2 * i) + 2])
                       z == FoldS(Pht4, y, Groups)
                   IN Tab(LAMBDA j : z[Perm[j]], 16)
    IN Final(Iter(f, pt, ks.n), ks.k[(2 * ks.n) + 1])
============================================================================

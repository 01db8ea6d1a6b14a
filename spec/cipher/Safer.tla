------------------------------ MODULE Safer ------------------------------
(* SAFER K (sk = FALSE) and SAFER SK (sk = TRUE), Massey 1993/1995; keys are zero-padded to 8 or 16 bytes. *)
EXTENDS Bytes
\* 45^i modulo 257 (256 is written 0) and its inverse
LOCAL ExpT == LET f(s, i) == Append(s, (s[Len(s)] * 45) % 257) IN Tab(LAMBDA i : Iter(f, <<1>>, 255)[i] % 256, 256)
LOCAL LogT == LET e == ExpT IN Tab(LAMBDA v : (CHOOSE i \in 1..256 : e[i] = v - 1) - 1, 256)
LOCAL Exp(x) == ExpT[(x % 256) + 1]
LOCAL Log(x) == LogT[(x % 256) + 1]
\* one layer: positions in xs are added exclusively and go through Exp, the others are added and go through Log
LOCAL NonLin(x, k, k2) == Tab(LAMBDA j : IF (j % 4) < 2 THEN (Exp(x[j] \oplus k[j]) + k2[j]) % 256 ELSE Log(x[j] + k[j]) \oplus k2[j], Len(x))
LOCAL Final(x, k) == Tab(LAMBDA j : IF (j % 4) < 2 THEN x[j] \oplus k[j] ELSE (x[j] + k[j]) % 256, Len(x))
LOCAL Parity(s) == FoldS(LAMBDA a, b : a \oplus b, 0, s)

Setup(r, key, sk) ==
    LET n == IF r = 0 THEN (IF Len(key) > 8 THEN 10 ELSE 6) ELSE r
        kp == PadTo(key, 16)
        k1 == Take(kp, 8)
        k2 == IF Len(key) > 8 THEN Drop(kp, 8) ELSE k1
        ka0 == Tab(LAMBDA i : Rol8(k1[i], 5), 8)
        ka == Append(ka0, Parity(ka0))
        kb == Append(k2, Parity(k2))
        rot6(s) == Tab(LAMBDA i : Rol8(s[i], 6), 9)
        f(st, q) == LET i == 2 * (q + 1)
                        a == rot6(st[1])
                        b == rot6(st[2])
                        ra == Tab(LAMBDA j : ((IF sk THEN a[(((i - 1) + (j - 1)) % 9) + 1] ELSE a[j]) + Exp(Exp((9 * i) + j))) % 256, 8)
                        rb == Tab(LAMBDA j : ((IF sk THEN b[((i + (j - 1)) % 9) + 1] ELSE b[j]) + Exp(Exp((9 * (i + 1)) + j))) % 256, 8)
                    IN <<a, b, (st[3] \o <<ra>>) \o <<rb>> >>
    IN [n |-> n, k |-> Iter(f, <<ka, kb, <<k2>> >>, n)[3]]
\* three layers of 2-PHTs, then the permutation
LOCAL Pht(x, p, q) == [[x EXCEPT ![p] = ((2 * x[p]) + x[q]) % 256] EXCEPT ![q] = (x[p] + x[q]) % 256]
LOCAL Pairs == <<<<1, 2>>, <<3, 4>>, <<5, 6>>, <<7, 8>>, <<1, 3>>, <<5, 7>>, <<2, 4>>, <<6, 8>>, <<1, 5>>, <<2, 6>>, <<3, 7>>, <<4, 8>>>>
LOCAL Perm == <<1, 5, 2, 6, 3, 7, 4, 8>>
Enc(ks, pt) ==
    LET f(x, i) == LET y == NonLin(x, ks.k[(2 * i) + 1], ks.k[(2 * i) + 2])
                       z == FoldS(LAMBDA a, p : Pht(a, p[1], p[2]), y, Pairs)
                   IN Tab(LAMBDA j : z[Perm[j]], 8)
    IN Final(Iter(f, pt, ks.n), ks.k[(2 * ks.n) + 1])
==========================================================================

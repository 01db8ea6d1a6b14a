------------------------------ MODULE Lea ------------------------------
(* LEA (Hong et al. 2013, KS X 3246); round counts are rounded up to a multiple of 4. *)
EXTENDS Bytes
LOCAL C == HexW32("c3efe9db44626b0279e27c8a78df30ec715ea49ec785da0ae04ef22ae5c40957")
LOCAL Rots == <<1, 3, 6, 11, 13, 17>>
Setup(r, key) ==
    LET kl == Len(key)
        m == IF kl > 24 THEN 8 ELSE IF kl > 16 THEN 6 ELSE 4
        n == IF r = 0 THEN (IF kl > 24 THEN 32 ELSE IF kl > 16 THEN 28 ELSE 24) ELSE ((r + 3) \div 4) * 4
        upd(t, i, p, j) == [t EXCEPT ![p] = Rol(t[p] ++ Rol(C[(i % m) + 1], (i + j) % 32), Rots[j + 1])]
        f(st, i) == LET w == IF m = 4 THEN 4 ELSE 6
                        g(t, j) == upd(t, i, IF m = 8 THEN (((6 * i) + j) % 8) + 1 ELSE j + 1, j)
                        t1 == Iter(g, st[1], w)
                        rk == IF m = 4 THEN <<t1[1], t1[2], t1[3], t1[2], t1[4], t1[2]>>
                              ELSE Tab(LAMBDA j : t1[IF m = 8 THEN (((6 * i) + (j - 1)) % 8) + 1 ELSE j], 6)
                    IN <<t1, Append(st[2], rk)>>
    IN [n |-> n, k |-> Iter(f, <<WordsLE32(PadTo(key, 4 * m)), <<>> >>, n)[2]]
Enc(ks, pt) ==
    LET f(x, i) == LET k == ks.k[i + 1]
                   IN << Rol((x[1] \oplus k[1]) ++ (x[2] \oplus k[2]), 9),
                         Ror((x[2] \oplus k[3]) ++ (x[3] \oplus k[4]), 5),
                         Ror((x[3] \oplus k[5]) ++ (x[4] \oplus k[6]), 3), x[1] >>
    IN BytesLE32(Iter(f, WordsLE32(pt), ks.n))
========================================================================

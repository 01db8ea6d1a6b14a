------------------------------ MODULE Speck128 ------------------------------
(* SPECK128 (Beaulieu et al.): 64-bit words; keys are zero-padded to whole words, at least two. *)
EXTENDS Bytes
LOCAL Add(p, q) == p \uplus q
LOCAL R(s, k) == LET a == Add(Ror64(s[1], 8), s[2]) ^^ k IN <<a, Rol64(s[2], 3) ^^ a>>
Setup(r, key) ==
    LET n == IF r = 0 THEN 30 + ((Len(key) + 7) \div 8) ELSE r
        m == Max2(2, (Len(key) + 7) \div 8)
        kw == WordsLE64(PadTo(key, 8 * m))
        \* st = <<key words, round keys>>
        f(st, i) == LET a == (i % (m - 1)) + 2
                        q == R(<<st[1][a], st[1][1]>>, W64(i))
                    IN <<[[st[1] EXCEPT ![a] = q[1]] EXCEPT ![1] = q[2]], Append(st[2], q[2])>>
    IN [n |-> n, k |-> Iter(f, <<kw, <<kw[1]>> >>, n - 1)[2]]
Enc(ks, pt) ==
    LET f(s, i) == R(s, ks.k[i + 1])
        w == WordsLE64(pt)
        e == Iter(f, <<w[2], w[1]>>, ks.n)
    IN BytesLE64(<<e[2], e[1]>>)
=============================================================================

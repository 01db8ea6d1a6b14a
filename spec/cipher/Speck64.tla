------------------------------ MODULE Speck64 ------------------------------
(* SPECK64 (Beaulieu et al.): 32-bit words; keys are zero-padded to whole words, at least two. *)
EXTENDS Bytes
LOCAL Add(p, q) == p ++ q
LOCAL R(s, k) == LET a == Add(Ror(s[1], 8), s[2]) \oplus k IN <<a, Rol(s[2], 3) \oplus a>>
Setup(r, key) ==
    LET n == IF r = 0 THEN 23 + ((Len(key) + 3) \div 4) ELSE r
        m == Max2(2, (Len(key) + 3) \div 4)
        kw == WordsLE32(PadTo(key, 4 * m))
        \* st = <<key words, round keys>>
        f(st, i) == LET a == (i % (m - 1)) + 2
                        q == R(<<st[1][a], st[1][1]>>, (i))
                    IN <<[[st[1] EXCEPT ![a] = q[1]] EXCEPT ![1] = q[2]], Append(st[2], q[2])>>
    IN [n |-> n, k |-> Iter(f, <<kw, <<kw[1]>> >>, n - 1)[2]]
Enc(ks, pt) ==
    LET f(s, i) == R(s, ks.k[i + 1])
        w == WordsLE32(pt)
        e == Iter(f, <<w[2], w[1]>>, ks.n)
    IN BytesLE32(<<e[2], e[1]>>)
============================================================================

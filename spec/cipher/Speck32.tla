------------------------------ MODULE Speck32 ------------------------------
(* SPECK32 (Beaulieu et al.): 16-bit words; keys are zero-padded to whole words, at least two. *)
EXTENDS Bytes
LOCAL Add(p, q) == (p + q) % 65536
LOCAL R(s, k) == LET a == Add(Ror16(s[1], 7), s[2]) \oplus k IN <<a, Rol16(s[2], 2) \oplus a>>
Setup(r, key) ==
    LET n == IF r = 0 THEN 22 ELSE r
        m == Max2(2, (Len(key) + 1) \div 2)
        kw == WordsLE16(PadTo(key, 2 * m))
        \* st = <<key words, round keys>>
        f(st, i) == LET a == (i % (m - 1)) + 2
                        q == R(<<st[1][a], st[1][1]>>, (i))
                    IN <<[[st[1] EXCEPT ![a] = q[1]] EXCEPT ![1] = q[2]], Append(st[2], q[2])>>
    IN [n |-> n, k |-> Iter(f, <<kw, <<kw[1]>> >>, n - 1)[2]]
Enc(ks, pt) ==
    LET f(s, i) == R(s, ks.k[i + 1])
        w == WordsLE16(pt)
        e == Iter(f, <<w[2], w[1]>>, ks.n)
    IN BytesLE16(<<e[2], e[1]>>)
============================================================================

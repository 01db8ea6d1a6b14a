----------------------------- MODULE Threefish -----------------------------
(* Threefish-256/512/1024 (Skein 1.3).  Setup(nw, r, key, tweak): nw words, r rounds
   (0: the standard number); round counts go in groups of eight (nearest multiple). *)
EXTENDS Bytes
LOCAL C240 == HexW64("1bd11bdaa9fc1a22")[1]
LOCAL Rot(nw) ==
    CASE nw = 4 -> << <<14, 16>>, <<52, 57>>, <<23, 40>>, <<5, 37>>, <<25, 33>>, <<46, 12>>, <<58, 22>>, <<32, 32>> >>
      [] nw = 8 -> << <<46, 36, 19, 37>>, <<33, 27, 14, 42>>, <<17, 49, 36, 39>>, <<44, 9, 54, 56>>,
                      <<39, 30, 34, 24>>, <<13, 50, 10, 17>>, <<25, 29, 39, 43>>, <<8, 35, 56, 22>> >>
      [] OTHER -> << <<24, 13, 8, 47, 8, 17, 22, 37>>, <<38, 19, 10, 55, 49, 18, 23, 52>>,
                     <<33, 4, 51, 13, 34, 41, 59, 17>>, <<5, 20, 48, 41, 47, 28, 16, 25>>,
                     <<41, 9, 37, 31, 12, 47, 44, 30>>, <<16, 34, 56, 51, 4, 53, 42, 41>>,
                     <<31, 44, 47, 46, 19, 42, 44, 25>>, <<9, 48, 35, 52, 23, 31, 37, 20>> >>
\* word permutation (0-based source positions)
LOCAL Perm(nw) ==
    CASE nw = 4 -> <<0, 3, 2, 1>>
      [] nw = 8 -> <<2, 1, 4, 7, 6, 5, 0, 3>>
      [] OTHER -> <<0, 9, 2, 13, 6, 11, 4, 15, 10, 7, 12, 3, 14, 5, 8, 1>>
Rounds(nw, r) == LET n == IF r = 0 THEN (IF nw = 16 THEN 80 ELSE 72) ELSE r
                 IN (((n \div 4) + 1) \div 2) * 8
Setup(nw, r, key, tweak) ==
    LET k == WordsLE64(PadTo(key, 8 * nw))
        t == WordsLE64(PadTo(tweak, 16))
        x(a, w) == a ^^ w
    IN [nw |-> nw, n |-> Rounds(nw, r), k |-> Append(k, FoldS(x, C240, k)), t |-> Append(t, t[1] ^^ t[2]),
        rot |-> Rot(nw), pm |-> Perm(nw)]
LOCAL SubKey(ks, s) ==
    LET nw == ks.nw
        w(i) == LET b == ks.k[((s + (i - 1)) % (nw + 1)) + 1]
                IN CASE i = nw - 2 -> b \uplus ks.t[(s % 3) + 1]
                     [] i = nw - 1 -> b \uplus ks.t[((s + 1) % 3) + 1]
                     [] i = nw -> b \uplus W64(s)
                     [] OTHER -> b
    IN Tab(w, nw)
LOCAL AddW(a, b) == Tab(LAMBDA i : a[i] \uplus b[i], Len(a))
LOCAL Mix(ks, v, d) ==
    LET rc == ks.rot[(d % 8) + 1]
        m == Tab(LAMBDA i : LET p == (i + 1) \div 2
                                a == v[(2 * p) - 1]
                                b == v[2 * p]
                                s == a \uplus b
                            IN IF i % 2 = 1 THEN s ELSE Rol64(b, rc[p]) ^^ s, ks.nw)
    IN Tab(LAMBDA i : m[ks.pm[i] + 1], ks.nw)
Enc(ks, pt) ==
    LET f(v, d) == Mix(ks, IF d % 4 = 0 THEN AddW(v, SubKey(ks, d \div 4)) ELSE v, d)
        e == Iter(f, WordsLE64(pt), ks.n)
    IN BytesLE64(AddW(e, SubKey(ks, ks.n \div 4)))
=============================================================================

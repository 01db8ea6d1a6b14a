------------------------------ MODULE BitSlice ------------------------------
(* A 4-bit S-box applied to four words, bit by bit (word 1 holds the least significant bits), by the algebraic normal form of the S-box. *)
EXTENDS Bytes
LOCAL Bit(v, k) == (v \div (2 ^ k)) % 2
LOCAL Up == Tab(LAMBDA i : i - 1, 16)
\* monomials of output bit k: m with an odd number of x contained in m with bit k of S(x) set
LOCAL Coef(sb, k, m) == FoldS(LAMBDA a, x : IF (x & m) = x THEN a \oplus Bit(sb[x + 1], k) ELSE a, 0, Up)
\* sb: sequence of 16 values
Anf(sb) == Tab(LAMBDA k : SelectSeq(Up, LAMBDA m : Coef(sb, k - 1, m) = 1), 4)
Apply(anf, w) ==
    LET a == w[1]  b == w[2]  c == w[3]  d == w[4]
        ab == a & b
        cd == c & d
        t == << -1, a, b, ab, c, a & c, b & c, ab & c, d, a & d, b & d, ab & d, cd, a & cd, b & cd, ab & cd >>
    IN Tab(LAMBDA k : FoldS(LAMBDA x, m : x \oplus t[m + 1], 0, anf[k]), 4)
SBoxOf(str) == LET b == Hex(str) IN Tab(LAMBDA i : IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16, 16)
=============================================================================

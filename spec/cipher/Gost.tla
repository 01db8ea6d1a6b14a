------------------------------ MODULE Gost ------------------------------
(* GOST 28147-89 with given S-boxes (eight rows, the first one for the lowest nibble); an even number of rounds, odd ones are rounded up. *)
EXTENDS Bytes
LOCAL Nib(str) == LET b == Hex(str) IN Tab(LAMBDA j : Tab(LAMBDA i : LET v == b[((8 * (j - 1)) + ((i - 1) \div 2)) + 1] IN IF i % 2 = 1 THEN v \div 16 ELSE v % 16, 16), 8)
CBR == Nib("4a92d80e6b1c7f53eb4c6dfa23810759581da342efc7609b7da1089fe46cb2536c715fd84a9e03b24ba0721d36859cfedb413f590ae7682c1fd057a4923e6b8c")
R34 == Nib("c462a5b9e8d703f168239a5c1e47bd0fb3582fade174c960c821d4f670a53e9b7f5a816d093eb42c5df692cab78143e08e25691cf4b0da3717ed05834fa69cb2")
\* S-boxes given as 128 hexadecimal digits
Boxes(str) == Nib(str)
Setup(r, key, sb) ==
    LET n == IF r = 0 THEN 32 ELSE r + (r % 2)
        m == (Len(key) + 3) \div 4
        k == WordsLE32(PadTo(key, 4 * m))
        \* the key words in order over and over, the last pass in reverse order
        k8 == k \o Zeros(8 - m)
    IN [n |-> n, s |-> sb, k |-> Tab(LAMBDA i : IF n - (i - 1) > m THEN k8[((i - 1) % m) + 1] ELSE k8[(n - i) + 1], n)]
LOCAL F(ks, x) ==
    LET b(j) == ByteOf(x, j)
        v(j) == ks.s[(2 * j) + 1][(b(j) % 16) + 1] + (16 * ks.s[(2 * j) + 2][(b(j) \div 16) + 1])
    IN Rol(WordsLE32(<<v(0), v(1), v(2), v(3)>>)[1], 11)
Enc(ks, pt) ==
    LET f(x, i) == <<x[2] \oplus F(ks, x[1] ++ ks.k[i + 1]), x[1]>>
        e == Iter(f, WordsLE32(pt), ks.n)
    IN BytesLE32(<<e[2], e[1]>>)
=========================================================================

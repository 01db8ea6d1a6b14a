----------------------------- MODULE Whirlpool -----------------------------
(* ISO/IEC 10118-3 (version 3.0 of Barreto and Rijmen), r rounds of the inner cipher. *)
EXTENDS Bytes
LOCAL E == <<1, 11, 9, 12, 13, 6, 15, 3, 14, 8, 7, 4, 10, 2, 5, 0>>
LOCAL Einv == Tab(LAMBDA i : (CHOOSE j \in 1..16 : E[j] = i - 1) - 1, 16)
LOCAL R == <<7, 12, 11, 13, 14, 4, 9, 15, 6, 3, 8, 10, 2, 5, 1, 0>>
LOCAL SBox == Tab(LAMBDA i : LET x == i - 1
                                 u == E[(x \div 16) + 1]
                                 l == Einv[(x % 16) + 1]
                                 t == R[(u \oplus l) + 1]
                             IN (E[(u \oplus t) + 1] * 16) + Einv[(l \oplus t) + 1], 256)
LOCAL C == <<1, 1, 4, 1, 8, 5, 2, 9>>
\* contribution of byte x in column 1 to its row, as a 64-bit word
LOCAL T1 == Tab(LAMBDA i : WordsBE64(Tab(LAMBDA j : GMul(SBox[i], C[j], 29), 8))[1], 256)
LOCAL T == Tab(LAMBDA k : Tab(LAMBDA i : Ror64(T1[i], 8 * (k - 1)), 256), 8)
\* SubBytes, ShiftColumns, MixRows on eight 64-bit rows
LOCAL L(s) == Tab(LAMBDA i :
    LET g(acc, k) == acc ^^ T[k + 1][ByteOf64(s[((((i - 1) - k) + 8) % 8) + 1], 7 - k) + 1]
    IN Iter(g, <<0, 0>>, 8), 8)
LOCAL RC(r) == WordsBE64(Slice(SBox, 8 * r, 8))[1]
LOCAL Compress(n, h, block) ==
    LET m == WordsBE64(block)
        f(u, r) == LET kk == L(u.k)
                       k2 == Patch(kk, 0, <<kk[1] ^^ RC(r)>>)
                   IN [k |-> k2, x |-> XorW64(L(u.x), k2)]
        e == Iter(f, [k |-> h, x |-> XorW64(m, h)], n).x
    IN XorW64(XorW64(h, e), m)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0 == Rep(<<0, 0>>, 8)
Blocks(r, h, pb, msg) == LET c(g, block) == Compress(IF r = 0 THEN 10 ELSE r, g, block) IN FoldS(c, h, BlocksOf(msg, 64))
From(r, h, pb, msg) == BytesBE64(Blocks(r, h, pb, MDPad(msg, 64, 128, Zeros(24) \o Be64(BitLenOf(pb, msg)))))
Digest(r, msg) == From(r, Chain0, W64(0), msg)
=============================================================================

------------------------------ MODULE Rijndael ------------------------------
(* Rijndael (Daemen, Rijmen; FIPS 197 for 16-byte blocks) with 16- or 32-byte blocks, keys of one to eight words (zero-padded). *)
EXTENDS Bytes
LOCAL Sb == Hex("637c777bf26b6fc53001672bfed7ab76ca82c97dfa5947f0add4a2af9ca472c0b7fd9326363ff7cc34a5e5f171d83115") \o
    Hex("04c723c31896059a071280e2eb27b27509832c1a1b6e5aa0523bd6b329e32f8453d100ed20fcb15b6acbbe394a4c58cf") \o
    Hex("d0efaafb434d338545f9027f503c9fa851a3408f929d38f5bcb6da2110fff3d2cd0c13ec5f974417c4a77e3d645d1973") \o
    Hex("60814fdc222a908846eeb814de5e0bdbe0323a0a4906245cc2d3ac629195e479e7c8376d8dd54ea96c56f4ea657aae08") \o
    Hex("ba78252e1ca6b4c6e8dd741f4bbd8b8a703eb5664803f60e613557b986c11d9ee1f8981169d98e949b1e87e9ce5528df") \o
    Hex("8ca1890dbfe6426841992d0fb054bb16")
LOCAL SubW(w) == WordsBE32(<<Sb[ByteOf(w, 3) + 1], Sb[ByteOf(w, 2) + 1], Sb[ByteOf(w, 1) + 1], Sb[ByteOf(w, 0) + 1]>>)[1]
\* bs: block size in bytes
Setup(r, key, bs) ==
    LET nb == bs \div 4
        nk == (Len(key) + 3) \div 4
        n == IF r = 0 THEN Max2(nk + 6, IF bs = 16 THEN 10 ELSE 14) ELSE r
        total == nb * (n + 1)
        rcon == LET g(s, i) == Append(s, GMul(2, s[Len(s)], 27)) IN Iter(g, <<1>>, total \div nk)
        f(w, q) == LET i == nk + q
                       t == w[i]
                       u == IF i % nk = 0 THEN SubW(Rol(t, 8)) \oplus Shl(rcon[i \div nk], 24)
                            ELSE IF nk > 6 /\ i % nk = 4 THEN SubW(t) ELSE t
                   IN Append(w, w[(i - nk) + 1] \oplus u)
        w == IF total > nk THEN Iter(f, WordsBE32(PadTo(key, 4 * nk)), total - nk) ELSE Take(WordsBE32(PadTo(key, 4 * nk)), total)
    IN [n |-> n, nb |-> nb, k |-> Tab(LAMBDA i : BytesBE32(Slice(w, nb * (i - 1), nb)), n + 1)]
\* SubBytes and ShiftRows; byte 4c + r is row r of column c
LOCAL Offs(nb) == IF nb = 8 THEN <<0, 1, 3, 4>> ELSE <<0, 1, 2, 3>>
LOCAL SubShift(x, nb) == LET o == Offs(nb)
    IN Tab(LAMBDA p : LET c == (p - 1) \div 4
                          rr == (p - 1) % 4
                      IN Sb[x[(4 * ((c + o[rr + 1]) % nb)) + (rr + 1)] + 1], 4 * nb)
LOCAL X2(b) == GMul(2, b, 27)
LOCAL MixCol(c) == LET t == (c[1] \oplus c[2]) \oplus (c[3] \oplus c[4])
    IN Tab(LAMBDA i : (c[i] \oplus t) \oplus X2(c[i] \oplus c[(i % 4) + 1]), 4)
LOCAL MixCols(x, nb) == LET f(s, c) == s \o MixCol(Slice(x, 4 * c, 4)) IN Iter(f, <<>>, nb)
Enc(ks, pt) ==
    LET f(x, i) == XorB(MixCols(SubShift(x, ks.nb), ks.nb), ks.k[i + 2])
        e == Iter(f, XorB(pt, ks.k[1]), ks.n - 1)
    IN XorB(SubShift(e, ks.nb), ks.k[ks.n + 1])
=============================================================================

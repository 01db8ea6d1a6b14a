------------------------------ MODULE Twofish ------------------------------
(* Twofish (Schneier et al. 1998), little-endian; keys are zero-padded to a multiple of 8 bytes, odd round counts are rounded up. *)
EXTENDS Bytes
LOCAL Q0 == Hex("a967b3e804fda3769a928078e4ddd1380dc6359818f7ec6c43753726fa139448f2d08b308454df23195b3d59f3aea282") \o
    Hex("6301832ed9519b7ca6eba5be160ce361c08c3af5732c250bbb4e896b536ab4f1e1e6bd45e2f4b666cc950356d41c1ed7") \o
    Hex("fbc38eb5e9cfbfbaea7739af33c96271817909ad24cdf9d8e5c5b94d440886e7a11daaed0670b2d2417ba01131c22790") \o
    Hex("20f660ff965cb1ab9e9c521b5f930aef918549ee2d4f8f3b47876d46d63e69642acecb2ffc97057aac7fd51a4b0ea75a") \o
    Hex("28143f29883c4c02b8dab017551f8a7d57c78d74b7c49f727e152212580799346e50de6865bcdbf8c8a82b40dcfe32a4") \o
    Hex("ca1021f0d35d0f006f9d36424a5ec1e0")
LOCAL Q1 == Hex("75f3c6f4db7bfbc84ad3e66b457de84bd632d8fd3771f1e1300ff81b87fa063f5ebaae5b8a00bc9d6dc1b10e805dd2d5") \o
    Hex("a0840714b5902ca3b2734c549274365138b0bd5afc6062966c42f7107c28278c13959cc724463b70cae385cb11d093b8") \o
    Hex("a68320ff9f77c3cc036f08bf40e72be2790caa82413aeab9e49aa4977eda7a176694a11d3df0deb30b72a71cefd1533e") \o
    Hex("8f33265fec762a498188ee21c41aebd9c53999cdad318b011823dd1f4e2df9484ff2658e785c58198de59857677f0564") \o
    Hex("af63b6fef5b73ca5cee96844e04d4369292eac1559a80a9e6e47df34356acfdc22c9c09b89d4edab12a20d52bb022fa9") \o
    Hex("d7611eb45004f6c2162586565509be91")
LOCAL MDS == <<Hex("01ef5b5b"), Hex("5befef01"), Hex("ef5b01ef"), Hex("ef01ef5b")>>
LOCAL RS == <<Hex("01a455875a58db9e"), Hex("a45682f31ec668e5"), Hex("02a1fcc147ae3d19"), Hex("a455875a58db9e03")>>
LOCAL Dot(row, v, poly) == Iter(LAMBDA a, i : a \oplus GMul(row[i + 1], v[i + 1], poly), 0, Len(v))
LOCAL Q(sel, x) == IF sel = 1 THEN Q1[x + 1] ELSE Q0[x + 1]
LOCAL Qs(sel, y) == Tab(LAMBDA i : Q(sel[i], y[i]), 4)
LOCAL Sel == <<<<0, 0, 1, 1>>, <<0, 1, 0, 1>>, <<1, 1, 0, 0>>, <<1, 0, 0, 1>>>>
LOCAL Mds5b == Tab(LAMBDA i : GMul(91, i - 1, 105), 256)
LOCAL MdsEf == Tab(LAMBDA i : GMul(239, i - 1, 105), 256)
LOCAL Mm(c, x) == IF c = 1 THEN x ELSE IF c = 91 THEN Mds5b[x + 1] ELSE MdsEf[x + 1]
\* h(X, L): y are the bytes of X, L a sequence of 4-byte strings L0, L1, ...
LOCAL H(y, L) ==
    LET k == Len(L)
        f(v, i) == XorB(Qs(Sel[k - i], v), L[k - i])
        z == Qs(<<1, 0, 1, 0>>, Iter(f, y, k))
    IN WordsLE32(Tab(LAMBDA i : (Mm(MDS[i][1], z[1]) \oplus Mm(MDS[i][2], z[2])) \oplus (Mm(MDS[i][3], z[3]) \oplus Mm(MDS[i][4], z[4])), 4))[1]
Setup(r, key) ==
    LET n == IF r = 0 THEN 16 ELSE r + (r % 2)
        m == (Len(key) + 7) \div 8
        kp == PadTo(key, 8 * m)
        me == Tab(LAMBDA i : Slice(kp, 8 * (i - 1), 4), m)
        mo == Tab(LAMBDA i : Slice(kp, (8 * (i - 1)) + 4, 4), m)
        s == Tab(LAMBDA i : Tab(LAMBDA j : Dot(RS[j], Slice(kp, 8 * (m - i), 8), 77), 4), m)
        f(k, i) == LET a == H(Rep((2 * i) % 256, 4), me)
                       b == Rol(H(Rep(((2 * i) + 1) % 256, 4), mo), 8)
                   IN k \o <<a ++ b, Rol((a ++ b) ++ b, 9)>>
    IN [n |-> n, s |-> s, k |-> Iter(f, <<>>, n + 4)]
Enc(ks, pt) ==
    LET g(x) == H(Le32(x), ks.s)
        f(x, i) == LET t0 == g(x[1])
                       t1 == g(Rol(x[2], 8))
                       f0 == (t0 ++ t1) ++ ks.k[(2 * i) + 9]
                       f1 == ((t0 ++ t1) ++ t1) ++ ks.k[(2 * i) + 10]
                   IN <<Ror(x[3] \oplus f0, 1), Rol(x[4], 1) \oplus f1, x[1], x[2]>>
        e == Iter(f, XorW(WordsLE32(pt), Take(ks.k, 4)), ks.n)
    IN BytesLE32(XorW(<<e[3], e[4], e[1], e[2]>>, Slice(ks.k, 4, 4)))
============================================================================

------------------------------ MODULE Des ------------------------------
(* DES and Triple DES (FIPS 46-3, EDE): keys of up to 8 bytes are DES, up to 16 bytes two-key, up to 24 bytes three-key Triple DES; zero-padded. *)
EXTENDS Bytes
LOCAL SB == << <<<<14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7>>, <<0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8>>, <<4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0>>, <<15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13>>>>,
    <<<<15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10>>, <<3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5>>, <<0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15>>, <<13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9>>>>,
    <<<<10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8>>, <<13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1>>, <<13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7>>, <<1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12>>>>,
    <<<<7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15>>, <<13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9>>, <<10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4>>, <<3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14>>>>,
    <<<<2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9>>, <<14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6>>, <<4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14>>, <<11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3>>>>,
    <<<<12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11>>, <<10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8>>, <<9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6>>, <<4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13>>>>,
    <<<<4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1>>, <<13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6>>, <<1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2>>, <<6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12>>>>,
    <<<<13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7>>, <<1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2>>, <<7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8>>, <<2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11>>>> >>
LOCAL PT == <<16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25>>
LOCAL PC1 == <<57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
               63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4>>
LOCAL PC2 == <<14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
               41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32>>
LOCAL Shifts == <<1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1>>
LOCAL IP == Tab(LAMBDA i : LET r == (i - 1) \div 8  c == (i - 1) % 8
                           IN (64 - (8 * c)) - (IF r < 4 THEN 6 - (2 * r) ELSE 7 - (2 * (r - 4))), 64)
LOCAL FP == Tab(LAMBDA i : LET r == (i - 1) \div 8  c == (i - 1) % 8
                           IN (IF c % 2 = 0 THEN 40 + (4 * c) ELSE 8 + (4 * (c - 1))) - r, 64)
\* bits of a byte string, most significant first, and back
LOCAL Bits(s) == Tab(LAMBDA i : (s[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2, 8 * Len(s))
LOCAL Val(b) == FoldS(LAMBDA a, x : (2 * a) + x, 0, b)
LOCAL Bytes(b) == Tab(LAMBDA i : Val(Slice(b, 8 * (i - 1), 8)), Len(b) \div 8)
LOCAL Perm(t, b) == Tab(LAMBDA i : b[t[i]], Len(t))
\* S-box j and P for every six-bit input, as a word
LOCAL SPword(j, x) ==
    LET v == SB[j][((2 * (x \div 32)) + (x % 2)) + 1][((x \div 2) % 16) + 1]
        b == Tab(LAMBDA i : IF i > 4 * (j - 1) /\ i <= 4 * j THEN (v \div (2 ^ ((4 * j) - i))) % 2 ELSE 0, 32)
    IN WordsBE32(Bytes(Perm(PT, b)))[1]
LOCAL SP == Tab(LAMBDA j : Tab(LAMBDA x : SPword(j, x - 1), 64), 8)
\* eight six-bit groups of the round key
LOCAL KeySched(k) ==
    LET cd0 == Perm(PC1, Bits(k))
        rotl(h, n) == Drop(h, n) \o Take(h, n)
        f(st, i) == LET c == rotl(Take(st[1], 28), Shifts[i + 1])
                        d == rotl(Drop(st[1], 28), Shifts[i + 1])
                        b == Perm(PC2, c \o d)
                    IN <<c \o d, Append(st[2], Tab(LAMBDA j : Val(Slice(b, 6 * (j - 1), 6)), 8))>>
    IN Iter(f, <<cd0, <<>> >>, 16)[2]
LOCAL F(r, k) == FoldS(LAMBDA a, j : a \oplus SP[j][((Rol(r, ((4 * (j - 1)) + 5) % 32) & 63) \oplus k[j]) + 1], 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
LOCAL Crypt(ks, pt) ==
    LET w == WordsBE32(Bytes(Perm(IP, Bits(pt))))
        f(x, i) == <<x[2], x[1] \oplus F(x[2], ks[i + 1])>>
        e == Iter(f, w, 16)
    IN Bytes(Perm(FP, Bits(BytesBE32(<<e[2], e[1]>>))))
Setup(r, key) ==
    LET n == Len(key)
        k == PadTo(key, 24)
        a == KeySched(Take(k, 8))
        b == KeySched(Slice(k, 8, 8))
    IN [k |-> IF n <= 8 THEN <<a>> ELSE <<a, RevS(b), IF n <= 16 THEN a ELSE KeySched(Drop(k, 16))>>]
Enc(ks, pt) == FoldS(LAMBDA x, k : Crypt(k, x), pt, ks.k)
========================================================================

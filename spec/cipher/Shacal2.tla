------------------------------ MODULE Shacal2 ------------------------------
(* SHACAL-2 (Handschuh, Naccache): the SHA-256 compression function as a cipher; rounds are rounded up to a multiple of 8 (at most 128, the constants continue the sequence). *)
EXTENDS Bytes
LOCAL RC == HexW32("428a2f9871374491b5c0fbcfe9b5dba53956c25b59f111f1923f82a4ab1c5ed5d807aa9812835b01243185be550c7dc3") \o
    HexW32("72be5d7480deb1fe9bdc06a7c19bf174e49b69c1efbe47860fc19dc6240ca1cc2de92c6f4a7484aa5cb0a9dc76f988da") \o
    HexW32("983e5152a831c66db00327c8bf597fc7c6e00bf3d5a7914706ca63511429296727b70a852e1b21384d2c6dfc53380d13") \o
    HexW32("650a7354766a0abb81c2c92e92722c85a2bfe8a1a81a664bc24b8b70c76c51a3d192e819d6990624f40e3585106aa070") \o
    HexW32("19a4c1161e376c082748774c34b0bcb5391c0cb34ed8aa4a5b9cca4f682e6ff3748f82ee78a5636f84c878148cc70208") \o
    HexW32("90befffaa4506cebbef9a3f7c67178f2ca273eced186b8c7eada7dd6f57d4f7f06f067aa0a637dc5113f98041b710b35") \o
    HexW32("28db77f532caab7b3c9ebe0a431d67c44cc5d4be597f299c5fcb6fab6c44198c7ba0ea2d7eabf2d08dbe8d0390bb1721") \o
    HexW32("99a2ad459f86e289a84c4472b3df34fcb99bb8d7bc76cbabc226a69ad304f19ade1be20ae39bb437ee84927cf3edd277") \o
    HexW32("fbfdfe530bee2c7a0e90181c25f572042da455823a52c34c41dc0172495796fc4bd31fc6533cde215f7abfe366c206b3") \o
    HexW32("6dfcc6bc7062f20f778d51277eaba3cc8363eccc85be1c2593c040289f4a205fa1953565a627bb0facfa8089b3c29b23") \o
    HexW32("b602f6fac36cee0ac7dc81eece7b8471d740288ce21dba7aeabbff66f56a9e60")
LOCAL s0(x) == (Ror(x, 7) \oplus Ror(x, 18)) \oplus Shr(x, 3)
LOCAL s1(x) == (Ror(x, 17) \oplus Ror(x, 19)) \oplus Shr(x, 10)
LOCAL E0(x) == (Ror(x, 2) \oplus Ror(x, 13)) \oplus Ror(x, 22)
LOCAL E1(x) == (Ror(x, 6) \oplus Ror(x, 11)) \oplus Ror(x, 25)
Setup(r, key) ==
    LET n == IF r = 0 THEN 64 ELSE ((r + 7) \div 8) * 8
        m == Min2(n, 16)
        w0 == WordsBE32(PadTo(Take(key, Min2(Len(key), 4 * n)), 4 * m))
        f(w, i) == LET t == Len(w) + 1 IN Append(w, (w[t - 16] ++ s0(w[t - 15])) ++ (w[t - 7] ++ s1(w[t - 2])))
        w == Iter(f, w0, n - m)
    IN [n |-> n, k |-> Tab(LAMBDA i : w[i] ++ RC[i], n)]
Enc(ks, pt) ==
    LET f(x, i) ==
            LET t1 == ((x[8] ++ E1(x[5])) ++ (x[7] \oplus (x[5] & (x[6] \oplus x[7])))) ++ ks.k[i + 1]
                t2 == E0(x[1]) ++ ((x[1] & x[2]) | (x[3] & (x[1] | x[2])))
            IN <<t1 ++ t2, x[1], x[2], x[3], x[4] ++ t1, x[5], x[6], x[7]>>
    IN BytesBE32(Iter(f, WordsBE32(pt), ks.n))
============================================================================

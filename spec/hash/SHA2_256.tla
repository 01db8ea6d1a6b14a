------------------------------ MODULE SHA2_256 -----------------------------
(* FIPS 180-4, with the library's round-count parameter: the first 16 steps are always
   done, further ones in groups of eight until at least r steps are done.  The round
   constants beyond the standard ones continue the same sequence (cube roots of primes).
   Output lengths up to 28 bytes select the initial value of SHA-224. *)
EXTENDS Bytes
LOCAL K == HexW32("428a2f9871374491b5c0fbcfe9b5dba53956c25b59f111f1923f82a4ab1c5ed5d807aa9812835b01243185be550c7dc3") \o
    HexW32("72be5d7480deb1fe9bdc06a7c19bf174e49b69c1efbe47860fc19dc6240ca1cc2de92c6f4a7484aa5cb0a9dc76f988da") \o
    HexW32("983e5152a831c66db00327c8bf597fc7c6e00bf3d5a7914706ca63511429296727b70a852e1b21384d2c6dfc53380d13") \o
    HexW32("650a7354766a0abb81c2c92e92722c85a2bfe8a1a81a664bc24b8b70c76c51a3d192e819d6990624f40e3585106aa070") \o
    HexW32("19a4c1161e376c082748774c34b0bcb5391c0cb34ed8aa4a5b9cca4f682e6ff3748f82ee78a5636f84c878148cc70208") \o
    HexW32("90befffaa4506cebbef9a3f7c67178f2ca273eced186b8c7eada7dd6f57d4f7f06f067aa0a637dc5113f98041b710b35") \o
    HexW32("28db77f532caab7b3c9ebe0a431d67c44cc5d4be597f299c5fcb6fab6c44198c7ba0ea2d7eabf2d08dbe8d0390bb1721") \o
    HexW32("99a2ad459f86e289a84c4472b3df34fcb99bb8d7bc76cbabc226a69ad304f19ade1be20ae39bb437ee84927cf3edd277") \o
    HexW32("fbfdfe530bee2c7a0e90181c25f572042da455823a52c34c41dc0172495796fc4bd31fc6533cde215f7abfe366c206b3") \o
    HexW32("6dfcc6bc7062f20f778d51277eaba3cc8363eccc85be1c2593c040289f4a205fa1953565a627bb0facfa8089b3c29b23") \o
    HexW32("b602f6fac36cee0ac7dc81eece7b8471d740288ce21dba7aeabbff66f56a9e60")
LOCAL IVbig == HexW32("6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19")
LOCAL IVsmall == HexW32("c1059ed8367cd5073070dd17f70e5939ffc00b316858151164f98fa7befa4fa4")
LOCAL Sum0(x) == (Ror(x, 2) \oplus Ror(x, 13)) \oplus Ror(x, 22)
LOCAL Sum1(x) == (Ror(x, 6) \oplus Ror(x, 11)) \oplus Ror(x, 25)
LOCAL Sig0(x) == (Ror(x, 7) \oplus Ror(x, 18)) \oplus Shr(x, 3)
LOCAL Sig1(x) == (Ror(x, 17) \oplus Ror(x, 19)) \oplus Shr(x, 10)
Steps(r) == IF r = 0 THEN 64 ELSE IF r <= 16 THEN 16 ELSE ((r + 7) \div 8) * 8
LOCAL Compress(n, h, block) ==
    LET xp(w, i) == Append(w, (Sig1(w[i + 15]) ++ w[i + 10]) ++ (Sig0(w[i + 2]) ++ w[i + 1]))
        w == Iter(xp, WordsBE32(block), n - 16)
        step(s, i) ==
            LET t1 == (((s[8] ++ Sum1(s[5])) ++ (s[7] \oplus (s[5] & (s[6] \oplus s[7])))) ++ K[i + 1]) ++ w[i + 1]
                t2 == Sum0(s[1]) ++ ((s[1] & s[2]) | (s[3] & (s[1] | s[2])))
            IN <<t1 ++ t2, s[1], s[2], s[3], s[4] ++ t1, s[5], s[6], s[7]>>
        e == Iter(step, h, n)
    IN Tab(LAMBDA i : h[i] ++ e[i], 8)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0(outlen) == IF outlen > 28 THEN IVbig ELSE IVsmall
Blocks(r, h, pb, msg) == LET c(g, block) == Compress(Steps(r), g, block) IN FoldS(c, h, BlocksOf(msg, 64))
From(r, h, pb, msg) == BytesBE32(Blocks(r, h, pb, MDPad(msg, 64, 128, Be64(BitLenOf(pb, msg)))))
Digest(r, outlen, msg) == From(r, Chain0(outlen), W64(0), msg)
=============================================================================

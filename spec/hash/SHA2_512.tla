------------------------------ MODULE SHA2_512 -----------------------------
(* FIPS 180-4, with the library's round-count parameter: the first 16 steps are always
   done, further ones in groups of eight until at least r steps are done.  The round
   constants beyond the standard ones continue the same sequence (cube roots of primes).
   Output lengths up to 48 bytes select the initial value of SHA-384. *)
EXTENDS Bytes
LOCAL K == HexW64("428a2f98d728ae227137449123ef65cdb5c0fbcfec4d3b2fe9b5dba58189dbbc3956c25bf348b53859f111f1b605d019") \o
    HexW64("923f82a4af194f9bab1c5ed5da6d8118d807aa98a303024212835b0145706fbe243185be4ee4b28c550c7dc3d5ffb4e2") \o
    HexW64("72be5d74f27b896f80deb1fe3b1696b19bdc06a725c71235c19bf174cf692694e49b69c19ef14ad2efbe4786384f25e3") \o
    HexW64("0fc19dc68b8cd5b5240ca1cc77ac9c652de92c6f592b02754a7484aa6ea6e4835cb0a9dcbd41fbd476f988da831153b5") \o
    HexW64("983e5152ee66dfaba831c66d2db43210b00327c898fb213fbf597fc7beef0ee4c6e00bf33da88fc2d5a79147930aa725") \o
    HexW64("06ca6351e003826f142929670a0e6e7027b70a8546d22ffc2e1b21385c26c9264d2c6dfc5ac42aed53380d139d95b3df") \o
    HexW64("650a73548baf63de766a0abb3c77b2a881c2c92e47edaee692722c851482353ba2bfe8a14cf10364a81a664bbc423001") \o
    HexW64("c24b8b70d0f89791c76c51a30654be30d192e819d6ef5218d69906245565a910f40e35855771202a106aa07032bbd1b8") \o
    HexW64("19a4c116b8d2d0c81e376c085141ab532748774cdf8eeb9934b0bcb5e19b48a8391c0cb3c5c95a634ed8aa4ae3418acb") \o
    HexW64("5b9cca4f7763e373682e6ff3d6b2b8a3748f82ee5defb2fc78a5636f43172f6084c87814a1f0ab728cc702081a6439ec") \o
    HexW64("90befffa23631e28a4506cebde82bde9bef9a3f7b2c67915c67178f2e372532bca273eceea26619cd186b8c721c0c207") \o
    HexW64("eada7dd6cde0eb1ef57d4f7fee6ed17806f067aa72176fba0a637dc5a2c898a6113f9804bef90dae1b710b35131c471b") \o
    HexW64("28db77f523047d8432caab7b40c724933c9ebe0a15c9bebc431d67c49c100d4c4cc5d4becb3e42b6597f299cfc657e2a") \o
    HexW64("5fcb6fab3ad6faec6c44198c4a4758177ba0ea2d981600077eabf2d0c21f964a8dbe8d038b40954590bb1721582e8285") \o
    HexW64("99a2ad45936d4e619f86e289fe03e739a84c4472faa9a82fb3df34fce89e0532b99bb8d7b173534fbc76cbab1aea1f9c") \o
    HexW64("c226a69a780f3cc3d304f19aa233957dde1be20a212129dde39bb43755141950ee84927cea48ddd2f3edd2773c523b67") \o
    HexW64("fbfdfe53a8d32f2a0bee2c7ab77e9e250e90181cf1b09e5625f57204c725bed82da45582cd598b323a52c34c203bfcf3") \o
    HexW64("41dc0172cd1991c1495796fcb33cc1c04bd31fc693f9f16e533cde2115f5a9a05f7abfe36e99c1d366c206b310a57e6f") \o
    HexW64("6dfcc6bc39603f617062f20f86fd1052778d51277adec8657eaba3cc25da70488363eccc37a5be0585be1c253beba54e") \o
    HexW64("93c04028f348bbc59f4a205fd05b2148a19535651ca6d2dea627bb0fbf027bc7acfa80891da2f06bb3c29b23031a7f9d") \o
    HexW64("b602f6fac7d3d74dc36cee0a10c7ba49c7dc81eea9ebad4fce7b8471b0f809dfd740288c84df269ce21dba7ac2290607") \o
    HexW64("eabbff66be175964f56a9e60f62cea92fde41d729d126eab0434d0970e42e7810a7cb752a3f1cd860ea7d22d6bcd7382") \o
    HexW64("16f2987f9495a5ee1d20cdcd45b8de1e213af85a39b0c3202964505c52a2f35b2d738e114181e0823b8cea0e71c58aaf") \o
    HexW64("4584e6ae9f54016e515f4356903dccc25356112ddfd5a8e95d1bc3edbe2c897a5f0da9f8ed53548b62ef0be4d5492e78") \o
    HexW64("64de896eace0be7f6e801ba3078ae05f7bdb3595cdadf50a7fa5377856834c98818916bad3d008a8854e959f834021a7") \o
    HexW64("926a82c27137e2c69622c7ba7d17919797fdd5929d59ce219bb1cb7470162d7eae0b55609ffea9d5b1ae88ab4eca7239") \o
    HexW64("b8ecc9f6468460a1c1eb8968a81a3124c911dd821bb6b418cca11fe32d0c58d0")
LOCAL IVbig == HexW64("6a09e667f3bcc908bb67ae8584caa73b3c6ef372fe94f82ba54ff53a5f1d36f1510e527fade682d19b05688c2b3e6c1f1f83d9abfb41bd6b5be0cd19137e2179")
LOCAL IVsmall == HexW64("cbbb9d5dc1059ed8629a292a367cd5079159015a3070dd17152fecd8f70e593967332667ffc00b318eb44a8768581511db0c2e0d64f98fa747b5481dbefa4fa4")
LOCAL Sum0(x) == (Ror64(x, 28) ^^ Ror64(x, 34)) ^^ Ror64(x, 39)
LOCAL Sum1(x) == (Ror64(x, 14) ^^ Ror64(x, 18)) ^^ Ror64(x, 41)
LOCAL Sig0(x) == (Ror64(x, 1) ^^ Ror64(x, 8)) ^^ Shr64(x, 7)
LOCAL Sig1(x) == (Ror64(x, 19) ^^ Ror64(x, 61)) ^^ Shr64(x, 6)
Steps(r) == IF r = 0 THEN 80 ELSE IF r <= 16 THEN 16 ELSE ((r + 7) \div 8) * 8
LOCAL Compress(n, h, block) ==
    LET xp(w, i) == Append(w, (Sig1(w[i + 15]) \uplus w[i + 10]) \uplus (Sig0(w[i + 2]) \uplus w[i + 1]))
        w == Iter(xp, WordsBE64(block), n - 16)
        step(s, i) ==
            LET t1 == (((s[8] \uplus Sum1(s[5])) \uplus (s[7] ^^ (s[5] && (s[6] ^^ s[7])))) \uplus K[i + 1]) \uplus w[i + 1]
                t2 == Sum0(s[1]) \uplus ((s[1] && s[2]) || (s[3] && (s[1] || s[2])))
            IN <<t1 \uplus t2, s[1], s[2], s[3], s[4] \uplus t1, s[5], s[6], s[7]>>
        e == Iter(step, h, n)
    IN Tab(LAMBDA i : h[i] \uplus e[i], 8)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0(outlen) == IF outlen > 48 THEN IVbig ELSE IVsmall
Blocks(r, h, pb, msg) == LET c(g, block) == Compress(Steps(r), g, block) IN FoldS(c, h, BlocksOf(msg, 128))
From(r, h, pb, msg) == BytesBE64(Blocks(r, h, pb, MDPad(msg, 128, 128, Zeros(8) \o Be64(BitLenOf(pb, msg)))))
Digest(r, outlen, msg) == From(r, Chain0(outlen), W64(0), msg)
=============================================================================

------------------------------ MODULE Aria ------------------------------
(* ARIA (RFC 5794), odd round counts are rounded up, keys are zero-padded; the constants of 128-bit keys are used unless the key has 6 or 8 words. *)
EXTENDS Bytes
LOCAL S1 == Hex("637c777bf26b6fc53001672bfed7ab76ca82c97dfa5947f0add4a2af9ca472c0b7fd9326363ff7cc34a5e5f171d83115") \o
    Hex("04c723c31896059a071280e2eb27b27509832c1a1b6e5aa0523bd6b329e32f8453d100ed20fcb15b6acbbe394a4c58cf") \o
    Hex("d0efaafb434d338545f9027f503c9fa851a3408f929d38f5bcb6da2110fff3d2cd0c13ec5f974417c4a77e3d645d1973") \o
    Hex("60814fdc222a908846eeb814de5e0bdbe0323a0a4906245cc2d3ac629195e479e7c8376d8dd54ea96c56f4ea657aae08") \o
    Hex("ba78252e1ca6b4c6e8dd741f4bbd8b8a703eb5664803f60e613557b986c11d9ee1f8981169d98e949b1e87e9ce5528df") \o
    Hex("8ca1890dbfe6426841992d0fb054bb16")
LOCAL S2 == Hex("e24e54fc94c24acc620d6a463c4d8bd15efa64cbb497be2bbc772e03d31959c11d06416b55f09969ea9c18ae63dfe7bb") \o
    Hex("007366fb964c85e43a0945aa0fee10eb2d7ff429accfad918d78c895f92fcecd087a88385c832a2847dbb8c793a41253") \o
    Hex("ff870e3136215848018e377432cae9b1b7ab0cd7c4564226079860d9b6b91140ec208cbda0c984044923f14f501f13dc") \o
    Hex("d8c09e57e3c37b653b028f3ee82592e515ddfd17a9bfd49a7ec53967fe769d43a7e1d0f568f21b347005a38ad57986a8") \o
    Hex("30c6514b1ea627f635d26e2416825fdae675a2ef2cb21c9f5d6f800a72449b6c900b5b337d5a52f361a1f7b0d63f7c6d") \o
    Hex("ed14e0a53d22b3f889de711aafbab581")
LOCAL InvT(s) == LET f(t, i) == [t EXCEPT ![s[i + 1] + 1] = i] IN Iter(f, Zeros(256), 256)
LOCAL S3 == InvT(S1)
LOCAL S4 == InvT(S2)
LOCAL C == <<Hex("517cc1b727220a94fe13abe8fa9a6ee0"), Hex("6db14acc9e21c820ff28b1d5ef5de2b0"), Hex("db92371d2126e9700324977504e8c90e")>>
LOCAL SL(x, odd) == Tab(LAMBDA i : LET q == ((i - 1) + (IF odd THEN 0 ELSE 2)) % 4
                                   IN CASE q = 0 -> S1[x[i] + 1] [] q = 1 -> S2[x[i] + 1] [] q = 2 -> S3[x[i] + 1] [] OTHER -> S4[x[i] + 1], 16)
LOCAL AM == << <<3,4,6,8,9,13,14>>, <<2,5,7,8,9,12,15>>, <<1,4,6,10,11,12,15>>, <<0,5,7,10,11,13,14>>,
               <<0,2,5,8,11,14,15>>, <<1,3,4,9,10,14,15>>, <<0,2,7,9,10,12,13>>, <<1,3,6,8,11,12,13>>,
               <<0,1,4,7,10,13,15>>, <<0,1,5,6,11,12,14>>, <<2,3,5,6,8,13,15>>, <<2,3,4,7,9,12,14>>,
               <<1,2,6,7,9,11,12>>, <<0,3,6,7,8,10,13>>, <<0,3,4,5,9,11,14>>, <<1,2,4,5,8,10,15>> >>
LOCAL A(x) == Tab(LAMBDA i : FoldS(LAMBDA a, j : a \oplus x[j + 1], 0, AM[i]), 16)
LOCAL F(x, k, odd) == A(SL(XorB(x, k), odd))
\* 128-bit rotation to the right
LOCAL RotR(x, n) == LET q == n \div 8
                        m == n % 8
                        at(i) == x[(((i + 47) - q) % 16) + 1]
                    IN Tab(LAMBDA i : ((at(i) \div (2 ^ m)) + ((at(i - 1) % (2 ^ m)) * (2 ^ (8 - m)))) % 256, 16)
LOCAL Amount == <<19, 31, 67, 97, 109>>
Setup(r, key) ==
    LET nk == (Len(key) + 3) \div 4
        n0 == IF r = 0 THEN Max2(12, 8 + nk) ELSE r
        n == n0 + (n0 % 2)
        kp == PadTo(key, 32)
        ci == IF nk = 8 THEN 2 ELSE IF nk = 6 THEN 1 ELSE 0
        ck(j) == C[((ci + (j - 1)) % 3) + 1]
        w0 == Take(kp, 16)
        w1 == XorB(F(w0, ck(1), TRUE), Drop(kp, 16))
        w2 == XorB(F(w1, ck(2), FALSE), w0)
        w3 == XorB(F(w2, ck(3), TRUE), w1)
        w == <<w0, w1, w2, w3>>
    IN [n |-> n, k |-> Tab(LAMBDA i : XorB(w[((i - 1) % 4) + 1], RotR(w[(i % 4) + 1], Amount[(((i - 1) \div 4) % 5) + 1])), n + 1)]
Enc(ks, pt) ==
    LET f(x, i) == F(x, ks.k[i + 1], i % 2 = 0)
        e == Iter(f, pt, ks.n - 1)
    IN XorB(SL(XorB(e, ks.k[ks.n]), FALSE), ks.k[ks.n + 1])
=========================================================================

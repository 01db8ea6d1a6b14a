------------------------------ MODULE Camellia ------------------------------
(* Camellia (RFC 3713).  Keys of up to 16 bytes use the 128-bit schedule, longer ones the 192/256-bit schedule; other lengths than 16, 24, 32 are extended as in Extend. *)
EXTENDS Bytes
LOCAL S1 == Hex("70822cecb327c0e5e4855735ea0cae4123ef6b934519a521ed0e4f4e1d6592bd86b8af8f7ceb1fce3e30dc5f5ec50b1a") \o
    Hex("a6e139cad5475d3dd9015ad651566c4d8b0d9a66fbccb02d74122b20f0b18499df4ccbc2347e76056db7a931d11704d7") \o
    Hex("14583a61de1b111c320f9c165318f222fe44cfb2c3b57a912408e8a860fc6950aad0a07da1896297545b1e95e0ff64d2") \o
    Hex("10c40048a3f775db8a03e6da093fdd94875c8302cd4a90337367f6f39d7fbfe2529bd826c837c63b81966f4b13be632e") \o
    Hex("e979a78c9f6ebc8e29f5f9b62ffdb4597898066ae74671bad425ab4288a28dfa7207b955f8eeac0a36492a683c38f1a4") \o
    Hex("4028d37bbbc943c115e3adf477c7809e")
LOCAL S2 == Tab(LAMBDA i : Rol8(S1[i], 1), 256)
LOCAL S3 == Tab(LAMBDA i : Ror8(S1[i], 1), 256)
LOCAL S4 == Tab(LAMBDA i : S1[Rol8(i - 1, 1) + 1], 256)
LOCAL PM == << <<1, 3, 4, 6, 7, 8>>, <<1, 2, 4, 5, 7, 8>>, <<1, 2, 3, 5, 6, 8>>, <<2, 3, 4, 5, 6, 7>>,
               <<1, 2, 6, 7, 8>>, <<2, 3, 5, 7, 8>>, <<3, 4, 5, 6, 8>>, <<1, 4, 5, 6, 7>> >>
\* halves are 8-byte strings
LOCAL F(x, k) ==
    LET y == XorB(x, k)
        t == <<S1[y[1] + 1], S2[y[2] + 1], S3[y[3] + 1], S4[y[4] + 1], S2[y[5] + 1], S3[y[6] + 1], S4[y[7] + 1], S1[y[8] + 1]>>
    IN Tab(LAMBDA i : FoldS(LAMBDA a, j : a \oplus t[j], 0, PM[i]), 8)
LOCAL FL(x, k) == LET w == WordsBE32(x)  v == WordsBE32(k)
                      b == w[2] \oplus Rol(w[1] & v[1], 1)
                  IN BytesBE32(<<w[1] \oplus (b | v[2]), b>>)
LOCAL FLInv(y, k) == LET w == WordsBE32(y)  v == WordsBE32(k)
                         a == w[1] \oplus (w[2] | v[2])
                     IN BytesBE32(<<a, w[2] \oplus Rol(a & v[1], 1)>>)
LOCAL Sigma == Tab(LAMBDA i : Slice(Hex("a09e667f3bcc908bb67ae8584caa73b2c6ef372fe94f82be54ff53a5f1d36f1c10e527fade682d1db05688c2b3e6c1fd"), 8 * (i - 1), 8), 6)
\* rotation of a 16-byte string to the left, its halves
LOCAL Rot(s, n) == LET q == n \div 8
                       m == n % 8
                       at(i) == s[((i + q) % 16) + 1]
                   IN Tab(LAMBDA i : ((at(i - 1) * (2 ^ m)) % 256) + (at(i) \div (2 ^ (8 - m))), 16)
LOCAL Hi(s) == Take(s, 8)
LOCAL Lo(s) == Drop(s, 8)
LOCAL Inv(s) == Tab(LAMBDA i : 255 - s[i], Len(s))
\* 32 bytes of key material
LOCAL Extend(key) ==
    LET n == Len(key)
        grow(t) == LET f(u, i) == Append(u, 255 - u[Len(u) - 7]) IN Iter(f, t, 8)
        a == IF n < 8 THEN PadTo(key, 8) ELSE key
    IN IF n < 16 THEN PadTo(grow(a), 32)
       ELSE IF n = 16 THEN PadTo(a, 32)
       ELSE IF n <= 24 THEN grow(PadTo(a, 24)) ELSE PadTo(a, 32)
\* two Feistel steps
LOCAL Two(x, i) == LET b == XorB(Lo(x), F(Hi(x), Sigma[i]))
                       a == XorB(Hi(x), F(b, Sigma[i + 1]))
                   IN a \o b
Setup(r, key) ==
    LET t == Extend(key)
        L == Take(t, 16)
        R == Drop(t, 16)
        A == Two(XorB(Two(XorB(L, R), 1), L), 3)
        B == Two(XorB(A, R), 5)
        two(s, n) == LET q == Rot(s, n) IN <<Hi(q), Lo(q)>>
    IN IF Len(key) <= 16
       THEN [n |-> 18, kw |-> two(L, 0) \o two(A, 111), ke |-> two(A, 30) \o two(L, 77),
             k |-> (((two(A, 0) \o two(L, 15)) \o two(A, 15)) \o ((two(L, 45) \o <<Hi(Rot(A, 45)), Lo(Rot(L, 60))>>) \o two(A, 60)))
                   \o ((two(L, 94) \o two(A, 94)) \o two(L, 111))]
       ELSE [n |-> 24, kw |-> two(L, 0) \o two(B, 111), ke |-> (two(R, 30) \o two(L, 60)) \o two(A, 77),
             k |-> (((two(B, 0) \o two(R, 15)) \o (two(A, 15) \o two(B, 30))) \o ((two(L, 45) \o two(A, 45)) \o (two(R, 60) \o two(B, 60))))
                   \o ((two(L, 77) \o two(R, 94)) \o (two(A, 94) \o two(L, 111)))]
Enc(ks, pt) ==
    LET f(x, i) == LET y == IF i > 0 /\ i % 6 = 0
                            THEN <<FL(x[1], ks.ke[(2 * (i \div 6)) - 1]), FLInv(x[2], ks.ke[2 * (i \div 6)])>>
                            ELSE x
                   IN <<XorB(y[2], F(y[1], ks.k[i + 1])), y[1]>>
        e == Iter(f, <<XorB(Hi(pt), ks.kw[1]), XorB(Lo(pt), ks.kw[2])>>, ks.n)
    IN XorB(e[2], ks.kw[3]) \o XorB(e[1], ks.kw[4])
=============================================================================

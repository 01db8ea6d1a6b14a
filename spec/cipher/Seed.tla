------------------------------ MODULE Seed ------------------------------
(* SEED (RFC 4269), 16 rounds by default; keys are zero-padded. *)
EXTENDS Bytes
LOCAL S1 == Hex("a985d6d3541dac255d43181e51fcca632844209de0e2c817a58f037bbb13d2ee708c3fa832ddf674ec950b575c5bbd01") \o
    Hex("241c739810ccf2d92ce772839bd186c96050a3eb0db69e4fb75ac678a612afd561c3b441527d8d081f9900190453f7e1") \o
    Hex("fd762f27b08b0eaba26e934d697c090abfeff3c58714fe64de2e4b1a06216b6602f5928a0cb37ed07a4796e52680addf") \o
    Hex("a13037ae36152238f4a7454c81e9849735cbce3c7111c78975fbdaf8945982c4ff493967c0cfd7b80f8e4223916cdba4") \o
    Hex("34f148c26f3d2d40be3ebcc1aaba4e553bdc687f9cd84a5677a0ed46b52b65fae3b9b19f5ef9e6b231ea6d5fe4f0cd88") \o
    Hex("163a58d462290733e81b0579906a2a9a")
LOCAL S2 == Hex("38e82da6cfdeb3b8af6055c7446f6b5bc36233b529a0e2a7d39111061cbc364bef886ca817c416f4c245e1d63f3d8e98") \o
    Hex("284ef63ea5f90ddfd82b667a272ff17242d441c07367ac8bf7ad801fca2caa34d20beee95d9418f857ae08c513cd86b9") \o
    Hex("ff7dc131f58a6ab1d120d7022204687107db9d9961bee659dd5190dc9aa3abd0810f471ae3ec8dbf967b5ca2a163234d") \o
    Hex("c89e9c3a0c2eba6e9f5af292f34978cc15fb70757f351003646dc674d5b4ea097619fe4012e0bd05fa01f02a5ea95643") \o
    Hex("8514899bb0e5487997fc1e82218c1b5f7754b21d254f0046ed5852eb7edac9fd3095653cb6e4bb7c0e50392632846993") \o
    Hex("37e724a4cb530a87d94c838fce3b4ab7")
LOCAL M == <<252, 243, 207, 63>>
LOCAL KC == HexW32("9e3779b9")[1]
LOCAL Parity4(s) == ((s[1] \oplus s[2]) \oplus s[3]) \oplus s[4]
LOCAL G(x) ==
    LET b == <<S1[ByteOf(x, 0) + 1], S2[ByteOf(x, 1) + 1], S1[ByteOf(x, 2) + 1], S2[ByteOf(x, 3) + 1]>>
        z(i) == Parity4(Tab(LAMBDA j : b[j] & M[(((i + j) - 1) % 4) + 1], 4))
    IN WordsLE32(<<z(0), z(1), z(2), z(3)>>)[1]
Setup(r, key) ==
    LET n == IF r = 0 THEN 16 ELSE r
        f(st, i) ==
            LET k == st[1]
                kc == Rol(KC, i % 32)
                rk == <<G((k[1] ++ k[3]) -- kc), G((k[2] -- k[4]) ++ kc)>>
                k2 == IF i % 2 = 1
                      THEN <<k[1], k[2], Shl(k[3], 8) | Shr(k[4], 24), Shl(k[4], 8) | Shr(k[3], 24)>>
                      ELSE <<Shr(k[1], 8) | Shl(k[2], 24), Shr(k[2], 8) | Shl(k[1], 24), k[3], k[4]>>
            IN <<k2, Append(st[2], rk)>>
    IN [n |-> n, k |-> Iter(f, <<WordsBE32(PadTo(key, 16)), <<>> >>, n)[2]]
Enc(ks, pt) ==
    LET f(x, i) ==
            LET c == x[3] \oplus ks.k[i + 1][1]
                d == x[4] \oplus ks.k[i + 1][2]
                t1 == G(c \oplus d)
                t2 == G(c ++ t1)
                t3 == G(t1 ++ t2)
            IN <<x[3], x[4], x[1] \oplus (t2 ++ t3), x[2] \oplus t3>>
        e == Iter(f, WordsBE32(pt), ks.n)
    IN BytesBE32(<<e[3], e[4], e[1], e[2]>>)
=========================================================================

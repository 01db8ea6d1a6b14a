------------------------------ MODULE Khazad ------------------------------
(* Khazad, tweaked version (Barreto, Rijmen), at most 8 rounds; keys are zero-padded. *)
EXTENDS Bytes
LOCAL Sb == Hex("ba542f7453d3d24d50ac8dbf70529a4cead597d133515ba6de48a899db32b7fce39e919be2bb416ea5cb6b95a1f3b102") \o
    Hex("ccc41d14c363da5d5fdc7dcd7f5a6c5cf726ffede89d6f8e19a0f0890f07affb08150d040164df7679dd3d163f376d38") \o
    Hex("b973e93555717b8c7288f62a3e5e27460c65686103c157d6d958d866d73ac83cfa96a798ecb8c7ae694baba9670a47f2") \o
    Hex("b522e5eebe2b8112831b0e23f54521ce492cf9e6b62817821a8bfe8a09c9874ee12ee4e0eb90a41e85600025f4f1940b") \o
    Hex("e775ef3431d4d0867eadfd29303b9ff8c6130605c511777c7a78361c39591856b3b02420b292a3c0446210b4844393c2") \o
    Hex("4abd8f2dbc9c6a40cfa2804f1fcaaa42")
LOCAL HR == <<1, 3, 4, 5, 6, 8, 11, 7>>
LOCAL Prod == LET e(c) == Tab(LAMBDA i : GMul(c, i - 1, 29), 256) IN Tab(LAMBDA j : e(HR[j]), 8)
\* H[i][j] = HR[i xor j]
LOCAL Theta(x) == Tab(LAMBDA j : FoldS(LAMBDA a, i : a \oplus Prod[((i - 1) \oplus (j - 1)) + 1][x[i] + 1], 0, <<1, 2, 3, 4, 5, 6, 7, 8>>), 8)
LOCAL Gamma(x) == Tab(LAMBDA i : Sb[x[i] + 1], 8)
Setup(r, key) ==
    LET n == IF r = 0 THEN 8 ELSE r
        kp == PadTo(key, 16)
        f(st, i) == LET q == XorB(XorB(Theta(Gamma(st[2])), Slice(Sb, 8 * i, 8)), st[1])
                    IN <<st[2], q, Append(st[3], q)>>
    IN [n |-> n, k |-> Iter(f, <<Take(kp, 8), Drop(kp, 8), <<>> >>, n + 1)[3]]
Enc(ks, pt) ==
    LET f(x, i) == XorB(Theta(Gamma(x)), ks.k[i + 2])
        e == Iter(f, XorB(pt, ks.k[1]), ks.n - 1)
    IN XorB(Gamma(e), ks.k[ks.n + 1])
===========================================================================

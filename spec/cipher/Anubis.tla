------------------------------ MODULE Anubis ------------------------------
(* Anubis, tweaked version (Barreto, Rijmen), keys of 1 to 10 words (zero-padded), at most 64 rounds. *)
EXTENDS Bytes
LOCAL Sb == Hex("ba542f7453d3d24d50ac8dbf70529a4cead597d133515ba6de48a899db32b7fce39e919be2bb416ea5cb6b95a1f3b102") \o
    Hex("ccc41d14c363da5d5fdc7dcd7f5a6c5cf726ffede89d6f8e19a0f0890f07affb08150d040164df7679dd3d163f376d38") \o
    Hex("b973e93555717b8c7288f62a3e5e27460c65686103c157d6d958d866d73ac83cfa96a798ecb8c7ae694baba9670a47f2") \o
    Hex("b522e5eebe2b8112831b0e23f54521ce492cf9e6b62817821a8bfe8a09c9874ee12ee4e0eb90a41e85600025f4f1940b") \o
    Hex("e775ef3431d4d0867eadfd29303b9ff8c6130605c511777c7a78361c39591856b3b02420b292a3c0446210b4844393c2") \o
    Hex("4abd8f2dbc9c6a40cfa2804f1fcaaa42")
LOCAL H == <<<<1, 2, 4, 6>>, <<2, 1, 6, 4>>, <<4, 6, 1, 2>>, <<6, 4, 2, 1>>>>
LOCAL G(a, b) == GMul(a, b, 29)
\* products with a table for each constant
LOCAL P2 == Tab(LAMBDA i : G(2, i - 1), 256)
LOCAL P4 == Tab(LAMBDA i : G(4, i - 1), 256)
LOCAL P6 == Tab(LAMBDA i : G(6, i - 1), 256)
LOCAL M(c, x) == CASE c = 1 -> x [] c = 2 -> P2[x + 1] [] c = 4 -> P4[x + 1] [] OTHER -> P6[x + 1]
\* row vector times H
LOCAL RowH(v) == Tab(LAMBDA j : (M(H[1][j], v[1]) \oplus M(H[2][j], v[2])) \oplus (M(H[3][j], v[3]) \oplus M(H[4][j], v[4])), 4)
\* byte 4i + j is row i, column j of the state
LOCAL Col(x, j) == Tab(LAMBDA i : x[(4 * (i - 1)) + j], Len(x) \div 4)
LOCAL Theta(x) == LET f(s, i) == s \o RowH(Slice(x, 4 * i, 4)) IN Iter(f, <<>>, Len(x) \div 4)
LOCAL Gamma(x) == Tab(LAMBDA i : Sb[x[i] + 1], Len(x))
LOCAL Tau(x) == Tab(LAMBDA p : x[((4 * ((p - 1) % 4)) + ((p - 1) \div 4)) + 1], 16)
\* key evolution: column j is shifted down by j
LOCAL Pi(x) == LET n == Len(x) \div 4
               IN Tab(LAMBDA p : LET i == (p - 1) \div 4
                                     j == (p - 1) % 4
                                 IN x[(4 * (((i + (8 * n)) - j) % n)) + (j + 1)], Len(x))
LOCAL Evolve(x, r) == XorInto(Theta(Pi(Gamma(x))), Slice(Sb, 4 * r, 4))
\* key selection with the Vandermonde matrix of 1, 2, 6, 8
LOCAL Sel(x) ==
    LET y == Gamma(x)
        n == Len(x) \div 4
        ev(v, j) == LET f(a, i) == G(v, a) \oplus y[(4 * ((n - 1) - i)) + j] IN Iter(f, 0, n)
    IN Tab(LAMBDA p : LET j == ((p - 1) \div 4) + 1
                      IN ev(<<1, 2, 6, 8>>[((p - 1) % 4) + 1], j), 16)
Setup(r, key) ==
    LET nk == (Len(key) + 3) \div 4
        n == IF r = 0 THEN Max2(12, 8 + nk) ELSE r
        f(st, i) == LET q == Evolve(st[1], i) IN <<q, Append(st[2], Sel(q))>>
        k0 == PadTo(key, 4 * nk)
    IN [n |-> n, k |-> Iter(f, <<k0, <<Sel(k0)>> >>, n)[2]]
Enc(ks, pt) ==
    LET f(x, i) == XorB(Theta(Tau(Gamma(x))), ks.k[i + 2])
        e == Iter(f, XorB(pt, ks.k[1]), ks.n - 1)
    IN XorB(Tau(Gamma(e)), ks.k[ks.n + 1])
===========================================================================

------------------------------ MODULE Skipjack ------------------------------
(* Skipjack (NSA 1998) with the byte order of block and key reversed; keys are zero-padded. *)
EXTENDS Bytes
LOCAL Sb == Hex("a3d70983f848f6f4b321157899b1aff9e72d4d8ace4cca2e5295d91e4e3844280adf02a017f1606812b77ac3e9fa3d53") \o
    Hex("96846bbaf2639a197caee5f5f7166aa239b67b0fc193811beeb41aead0912fb855b9da853f41bfe05a58805f660bd890") \o
    Hex("35d5c0a733066569450094566d989b7697fcb2c2b0fedb20e1ebd6e4dd474a1d42ed9e6e493ccd4327d207d4dec76718") \o
    Hex("89cb301f8dc68faac874dcc95d5c31a47088612c9f0d2b8750825464267d0340344b1c73d1c4fd3bccfb7fabe63e5ba5") \o
    Hex("ad04239c145122f02979717eff8c0ee20cefbc72756f37a1ecd38e628b8610e8087711be924f24c532369dcff3a6bbac") \o
    Hex("5e6ca9135725b5e3bda83a0105592a46")
Setup(r, key) == [k |-> RevS(PadTo(key, 10))]
Enc(ks, pt) ==
    LET cv(j) == ks.k[(j % 10) + 1]
        \* G-permutation in step c (1..32)
        g(w, c) == LET h(p, j) == <<p[2], p[1] \oplus Sb[(p[2] \oplus cv((4 * (c - 1)) + j)) + 1]>>
                       q == Iter(h, <<w \div 256, w % 256>>, 4)
                   IN (q[1] * 256) + q[2]
        ruleA(w, c) == LET t == g(w[1], c) IN <<(t \oplus w[4]) \oplus c, t, w[2], w[3]>>
        ruleB(w, c) == <<w[4], g(w[1], c), (w[1] \oplus w[2]) \oplus c, w[3]>>
        f(w, i) == IF (i \div 8) % 2 = 0 THEN ruleA(w, i + 1) ELSE ruleB(w, i + 1)
    IN RevS(BytesBE16(Iter(f, WordsBE16(RevS(pt)), 32)))
=============================================================================

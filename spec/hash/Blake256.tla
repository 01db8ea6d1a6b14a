----------------------------- MODULE Blake256 -----------------------------
(* BLAKE-256 / BLAKE-224 (SHA-3 finalist version) with salt; r rounds (0: 14). *)
EXTENDS Bytes
LOCAL Sigma == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
    <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
    <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>,
    <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
    <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>,
    <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
    <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>,
    <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
    <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>,
    <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>>>>
LOCAL IV == HexW32("6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19")
LOCAL IVsmall == HexW32("c1059ed8367cd5073070dd17f70e5939ffc00b316858151164f98fa7befa4fa4")
LOCAL K == HexW32("243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c89452821e638d01377be5466cf34e90c6cc0ac29b7c97c50dd3f84d5b5b5470917")
\* the eight quarter rounds of one round: four columns, four diagonals (1-based positions)
LOCAL Quad == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
                <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
LOCAL G(v, q, m0, m1) ==
    LET a1 == (v[q[1]] ++ v[q[2]]) ++ m0
        d1 == Ror(v[q[4]] \oplus a1, 16)
        c1 == v[q[3]] ++ d1
        b1 == Ror(v[q[2]] \oplus c1, 12)
        a2 == (a1 ++ b1) ++ m1
        d2 == Ror(d1 \oplus a2, 8)
        c2 == c1 ++ d2
        b2 == Ror(b1 \oplus c2, 7)
    IN [v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
LOCAL Rounds(n, v0, m) ==
    LET rnd(v, r) ==
          LET s == Sigma[(r % 10) + 1]
              qr(u, i) == LET x == s[(2 * i) + 1] + 1
                              y == s[(2 * i) + 2] + 1
                          IN G(u, Quad[i + 1], m[x] \oplus K[y], m[y] \oplus K[x])
          IN Iter(qr, v, 8)
    IN Iter(rnd, v0, n)
\* t: counter of message bits so far, as two words <<high, low>>
LOCAL Compress(n, sw, h, block, t) ==
    LET v == h \o <<sw[1] \oplus K[1], sw[2] \oplus K[2], sw[3] \oplus K[3], sw[4] \oplus K[4],
                    t[2] \oplus K[5], t[2] \oplus K[6], t[1] \oplus K[7], t[1] \oplus K[8]>>
        e == Rounds(n, v, WordsBE32(block))
    IN Tab(LAMBDA i : ((h[i] \oplus e[i]) \oplus e[i + 8]) \oplus sw[((i - 1) % 4) + 1], 8)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0(outlen) == IF outlen > 28 THEN IV ELSE IVsmall
Rnd(r) == IF r = 0 THEN 14 ELSE r
Blocks(r, salt, h, pb, msg) ==
    LET sw == WordsBE32(PadTo(salt, 16))
        f(g, i) == Compress(Rnd(r), sw, g, Slice(msg, i * 64, 64), Shl64(pb \uplus W64((i + 1) * 64), 3))
    IN Iter(f, h, Len(msg) \div 64)
From(r, salt, outlen, h, pb, msg) ==
    LET sw == WordsBE32(PadTo(salt, 16))
        pad0 == MDPad(msg, 64, 128, Zeros(8))
        at == Len(pad0) - 9                    \* byte before the length
        pad1 == IF outlen > 28 THEN Patch(pad0, at, <<pad0[at + 1] \oplus 1>>) ELSE pad0
        pad == Take(pad1, Len(pad0) - 8) \o BytesBE32(BitLenOf(pb, msg))
        \* the counter of a block: message bits up to its end, and 0 if it has no message bits
        cnt(i) == IF i * 64 >= Len(msg) THEN <<0, 0>>
                  ELSE Shl64(pb \uplus W64(Min2((i + 1) * 64, Len(msg))), 3)
        f(g, i) == Compress(Rnd(r), sw, g, Slice(pad, i * 64, 64), cnt(i))
    IN BytesBE32(Iter(f, h, Len(pad) \div 64))
Digest(r, salt, outlen, msg) == From(r, salt, outlen, Chain0(outlen), W64(0), msg)
=============================================================================

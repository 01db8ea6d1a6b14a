----------------------------- MODULE Blake512 -----------------------------
(* BLAKE-512 / BLAKE-384 (SHA-3 finalist version) with salt; r rounds (0: 16). *)
EXTENDS Bytes
LOCAL Sigma == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
    <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
    <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>,
    <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
    <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>,
    <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
    <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>,
    <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
    <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>,
    <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>>>>
LOCAL IV == HexW64("6a09e667f3bcc908bb67ae8584caa73b3c6ef372fe94f82ba54ff53a5f1d36f1510e527fade682d19b05688c2b3e6c1f1f83d9abfb41bd6b5be0cd19137e2179")
LOCAL IVsmall == HexW64("cbbb9d5dc1059ed8629a292a367cd5079159015a3070dd17152fecd8f70e593967332667ffc00b318eb44a8768581511db0c2e0d64f98fa747b5481dbefa4fa4")
LOCAL K == HexW64("243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c89452821e638d01377be5466cf34e90c6cc0ac29b7c97c50dd3f84d5b5b54709179216d5d98979fb1bd1310ba698dfb5ac2ffd72dbd01adfb7b8e1afed6a267e96ba7c9045f12c7f9924a19947b3916cf70801f2e2858efc16636920d871574e69")
\* the eight quarter rounds of one round: four columns, four diagonals (1-based positions)
LOCAL Quad == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
                <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
LOCAL G(v, q, m0, m1) ==
    LET a1 == (v[q[1]] \uplus v[q[2]]) \uplus m0
        d1 == Ror64(v[q[4]] ^^ a1, 32)
        c1 == v[q[3]] \uplus d1
        b1 == Ror64(v[q[2]] ^^ c1, 25)
        a2 == (a1 \uplus b1) \uplus m1
        d2 == Ror64(d1 ^^ a2, 16)
        c2 == c1 \uplus d2
        b2 == Ror64(b1 ^^ c2, 11)
    IN [v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
LOCAL Rounds(n, v0, m) ==
    LET rnd(v, r) ==
          LET s == Sigma[(r % 10) + 1]
              qr(u, i) == LET x == s[(2 * i) + 1] + 1
                              y == s[(2 * i) + 2] + 1
                          IN G(u, Quad[i + 1], m[x] ^^ K[y], m[y] ^^ K[x])
          IN Iter(qr, v, 8)
    IN Iter(rnd, v0, n)
\* t: counter of message bits so far, as two words <<high, low>>
LOCAL Compress(n, sw, h, block, t) ==
    LET v == h \o <<sw[1] ^^ K[1], sw[2] ^^ K[2], sw[3] ^^ K[3], sw[4] ^^ K[4],
                    t[2] ^^ K[5], t[2] ^^ K[6], t[1] ^^ K[7], t[1] ^^ K[8]>>
        e == Rounds(n, v, WordsBE64(block))
    IN Tab(LAMBDA i : ((h[i] ^^ e[i]) ^^ e[i + 8]) ^^ sw[((i - 1) % 4) + 1], 8)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0(outlen) == IF outlen > 48 THEN IV ELSE IVsmall
Rnd(r) == IF r = 0 THEN 16 ELSE r
Blocks(r, salt, h, pb, msg) ==
    LET sw == WordsBE64(PadTo(salt, 32))
        f(g, i) == Compress(Rnd(r), sw, g, Slice(msg, i * 128, 128), <<<<0, 0>>, Shl64(pb \uplus W64((i + 1) * 128), 3)>>)
    IN Iter(f, h, Len(msg) \div 128)
From(r, salt, outlen, h, pb, msg) ==
    LET sw == WordsBE64(PadTo(salt, 32))
        pad0 == MDPad(msg, 128, 128, Zeros(16))
        at == Len(pad0) - 17                    \* byte before the length
        pad1 == IF outlen > 48 THEN Patch(pad0, at, <<pad0[at + 1] \oplus 1>>) ELSE pad0
        pad == Take(pad1, Len(pad0) - 16) \o BytesBE64(<<<<0, 0>>, BitLenOf(pb, msg)>>)
        \* the counter of a block: message bits up to its end, and 0 if it has no message bits
        cnt(i) == IF i * 128 >= Len(msg) THEN <<<<0, 0>>, <<0, 0>>>>
                  ELSE <<<<0, 0>>, Shl64(pb \uplus W64(Min2((i + 1) * 128, Len(msg))), 3)>>
        f(g, i) == Compress(Rnd(r), sw, g, Slice(pad, i * 128, 128), cnt(i))
    IN BytesBE64(Iter(f, h, Len(pad) \div 128))
Digest(r, salt, outlen, msg) == From(r, salt, outlen, Chain0(outlen), W64(0), msg)
=============================================================================

----------------------------- MODULE Blake2s -----------------------------
(* RFC 7693 with salt and without key or personalisation; r rounds (0: 10). *)
EXTENDS Bytes
LOCAL Sigma == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
    <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
    <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>,
    <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
    <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>,
    <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
    <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>,
    <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
    <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>,
    <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>>>>
LOCAL IV == HexW32("6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19")
\* the eight quarter rounds of one round: four columns, four diagonals (1-based positions)
LOCAL Quad == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
                <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
LOCAL G(v, q, m0, m1) ==
    LET a1 == (v[q[1]] ++ v[q[2]]) ++ m0
        d1 == Ror(v[q[4]] \oplus a1, 16)
        c1 == v[q[3]] ++ d1
        b1 == Ror(v[q[2]] \oplus c1, 12)
        a2 == (a1 ++ b1) ++ m1
        d2 == Ror(d1 \oplus a2, 8)
        c2 == c1 ++ d2
        b2 == Ror(b1 \oplus c2, 7)
    IN [v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
LOCAL Rounds(n, v0, m) ==
    LET rnd(v, r) ==
          LET s == Sigma[(r % 10) + 1]
              qr(u, i) == LET x == s[(2 * i) + 1] + 1
                              y == s[(2 * i) + 2] + 1
                          IN G(u, Quad[i + 1], m[x], m[y])
          IN Iter(qr, v, 8)
    IN Iter(rnd, v0, n)
\* h: chaining value, t: bytes so far (counter), last: final block?
LOCAL Compress(n, h, block, t, last) ==
    LET v == h \o <<IV[1], IV[2], IV[3], IV[4], IV[5] \oplus t[2], IV[6] \oplus t[1],
                    IF last THEN Not(IV[7]) ELSE IV[7], IV[8]>>
        e == Rounds(n, v, WordsLE32(block))
    IN Tab(LAMBDA i : h[i] \oplus (e[i] \oplus e[i + 8]), 8)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0(salt, outlen) ==
    LET sw == WordsLE32(PadTo(salt, 8))
    IN Patch(IV, 0, <<IV[1] \oplus ((16842752 + outlen)), IV[2], IV[3], IV[4], IV[5] \oplus sw[1], IV[6] \oplus sw[2]>>)
Rnd(r) == IF r = 0 THEN 10 ELSE r
Blocks(r, h, pb, msg) ==
    LET f(g, i) == Compress(Rnd(r), g, Slice(msg, i * 64, 64), pb \uplus W64((i + 1) * 64), FALSE)
    IN Iter(f, h, Len(msg) \div 64)
\* (msg must not be empty if pb is not 0: the last block is marked)
From(r, h, pb, msg) ==
    LET cs == IF msg = <<>> THEN <<<<>>>> ELSE Chunks(msg, 64)
        f(g, i) == LET l == (i + 1) = Len(cs)
                   IN Compress(Rnd(r), g, PadTo(cs[i + 1], 64), pb \uplus W64((64 * i) + Len(cs[i + 1])), l)
    IN BytesLE32(Iter(f, h, Len(cs)))
Digest(r, salt, outlen, msg) == From(r, Chain0(salt, outlen), W64(0), msg)
=============================================================================

------------------------------- MODULE SHA1 --------------------------------
(* FIPS 180-4. *)
EXTENDS Bytes
LOCAL K == HexW32("5a8279996ed9eba18f1bbcdcca62c1d6")
LOCAL H0 == HexW32("67452301efcdab8998badcfe10325476c3d2e1f0")
LOCAL Compress(h, block) ==
    LET xp(w, i) == Append(w, Rol((w[i + 14] \oplus w[i + 9]) \oplus (w[i + 3] \oplus w[i + 1]), 1))
        w == Iter(xp, WordsBE32(block), 64)
        F(q, x, y, z) == CASE q = 0 -> z \oplus (x & (y \oplus z))
                           [] q = 2 -> (x & y) | (z & (x | y))
                           [] OTHER -> (x \oplus y) \oplus z
        step(s, i) == LET q == i \div 20
                      IN <<(((Rol(s[1], 5) ++ F(q, s[2], s[3], s[4])) ++ s[5]) ++ K[q + 1]) ++ w[i + 1],
                           s[1], Rol(s[2], 30), s[3], s[4]>>
        e == Iter(step, h, 80)
    IN Tab(LAMBDA i : h[i] ++ e[i], 5)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0 == H0
Blocks(h, pb, msg) == FoldS(Compress, h, BlocksOf(msg, 64))
From(h, pb, msg) == BytesBE32(Blocks(h, pb, MDPad(msg, 64, 128, Be64(BitLenOf(pb, msg)))))
Digest(msg) == From(H0, W64(0), msg)
=============================================================================

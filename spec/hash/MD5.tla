-------------------------------- MODULE MD5 --------------------------------
(* RFC 1321. *)
EXTENDS Bytes
LOCAL K == HexW32("d76aa478e8c7b756242070dbc1bdceeef57c0faf4787c62aa8304613fd469501698098d88b44f7afffff5bb1895cd7be6b901122fd987193a679438e49b40821f61e2562c040b340265e5a51e9b6c7aad62f105d02441453d8a1e681e7d3fbc821e1cde6c33707d6f4d50d87455a14eda9e3e905fcefa3f8676f02d98d2a4c8afffa39428771f6816d9d6122fde5380ca4beea444bdecfa9f6bb4b60bebfbc70289b7ec6eaa127fad4ef308504881d05d9d4d039e6db99e51fa27cf8c4ac5665f4292244432aff97ab9423a7fc93a039655b59c38f0ccc92ffeff47d85845dd16fa87e4ffe2ce6e0a30143144e0811a1f7537e82bd3af2352ad7d2bbeb86d391")
LOCAL R == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
LOCAL H0 == HexW32("67452301efcdab8998badcfe10325476")
LOCAL Compress(h, block) ==
    LET w == WordsLE32(block)
        F(q, x, y, z) == CASE q = 0 -> z \oplus (x & (y \oplus z))
                           [] q = 1 -> y \oplus (z & (x \oplus y))
                           [] q = 2 -> (x \oplus y) \oplus z
                           [] OTHER -> y \oplus (x | Not(z))
        g(q, i) == (CASE q = 0 -> i [] q = 1 -> (5 * i) + 1 [] q = 2 -> (3 * i) + 5 [] OTHER -> 7 * i) % 16
        step(s, i) ==
            LET q == i \div 16
                t == ((s[1] ++ F(q, s[2], s[3], s[4])) ++ K[i + 1]) ++ w[g(q, i) + 1]
            IN <<s[4], s[2] ++ Rol(t, R[q + 1][(i % 4) + 1]), s[2], s[3]>>
        e == Iter(step, h, 64)
    IN Tab(LAMBDA i : h[i] ++ e[i], 4)
\* From: the digest when pb bytes (a 64-bit word; whole blocks) came before msg and led to the chaining value h
Chain0 == H0
Blocks(h, pb, msg) == FoldS(Compress, h, BlocksOf(msg, 64))
From(h, pb, msg) == BytesLE32(Blocks(h, pb, MDPad(msg, 64, 128, Le64(BitLenOf(pb, msg)))))
Digest(msg) == From(H0, W64(0), msg)
=============================================================================

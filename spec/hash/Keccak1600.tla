---------------------------- MODULE Keccak1600 ----------------------------
(* The Keccak-f[1600] permutation, n rounds starting at round 0 (lane x + 5y at index x + 5y + 1). *)
EXTENDS Bytes
\* rotation offsets modulo 64, from the (t+1)(t+2)/2 rule
LOCAL Offs ==
    LET f(u, t) == [x |-> u.y, y |-> ((2 * u.x) + (3 * u.y)) % 5,
                    o |-> Patch(u.o, u.x + (5 * u.y), <<(((t + 1) * (t + 2)) \div 2) % 64>>)]
    IN Iter(f, [x |-> 1, y |-> 0, o |-> Zeros(25)], 24).o
\* round constants from the LFSR x^8 + x^6 + x^5 + x^4 + 1
LOCAL RC ==
    LET lf(x, i) == LET d == x * 2 IN IF d >= 256 THEN (d - 256) \oplus 113 ELSE d
        bits == LET f(u, i) == [x |-> lf(u.x, i), b |-> Append(u.b, u.x % 2)]
                IN Iter(f, [x |-> 1, b |-> <<>>], 7 * 48).b
        one(i) == LET g(acc, j) == IF j <= 6 /\ bits[((7 * (i - 1)) + j) + 1] = 1
                                   THEN acc || Shl64(W64(1), (2 ^ j) - 1) ELSE acc
                  IN Iter(g, <<0, 0>>, 7)
    IN Tab(one, 48)
LOCAL At(s, x, y) == s[((x % 5) + (5 * (y % 5))) + 1]
\* destination of lane i under pi: B[y, 2x+3y] = A[x, y]; Src is its inverse
LOCAL Src == Tab(LAMBDA i : LET X == (i - 1) % 5
                                Y == (i - 1) \div 5
                            IN ((X + (3 * Y)) % 5) + (5 * X) + 1, 25)
LOCAL Round(s, i) ==
    LET c == Tab(LAMBDA x : ((s[x] ^^ s[x + 5]) ^^ (s[x + 10] ^^ s[x + 15])) ^^ s[x + 20], 5)
        d == Tab(LAMBDA x : c[((x + 3) % 5) + 1] ^^ Rol64(c[(x % 5) + 1], 1), 5)
        b == Tab(LAMBDA j : LET k == Src[j] IN Rol64(s[k] ^^ d[((k - 1) % 5) + 1], Offs[k]), 25)
        e == Tab(LAMBDA j : LET r == 5 * ((j - 1) \div 5)
                                x == (j - 1) % 5
                            IN b[j] ^^ (Not64(b[(r + ((x + 1) % 5)) + 1]) && b[(r + ((x + 2) % 5)) + 1]), 25)
    IN Patch(e, 0, <<e[1] ^^ RC[i + 1]>>)
\* on byte strings of 200 bytes
F(n, bytes) == BytesLE64(Iter(Round, WordsLE64(bytes), n))
=============================================================================

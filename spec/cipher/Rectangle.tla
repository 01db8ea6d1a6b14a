------------------------------ MODULE Rectangle ------------------------------
(* RECTANGLE (Zhang et al.), at most 25 rounds; the 80-bit key schedule for keys of up to 10 bytes, otherwise the 128-bit one; big-endian rows. *)
EXTENDS Bytes
LOCAL B == INSTANCE BitSlice
LOCAL Anf == B!Anf(<<6, 5, 12, 10, 1, 14, 7, 9, 11, 0, 3, 13, 8, 15, 4, 2>>)
LOCAL S(x) == B!Apply(Anf, x)
LOCAL S16(x) == Tab(LAMBDA i : x[i] & 65535, 4)
LOCAL RC == Hex("0102040912050b160c1913070f1f1e1c181103060d1b170e1d")
\* S-box on the columns selected by mask only
LOCAL Low(x, mask) == LET s == S(x) IN Tab(LAMBDA i : (x[i] & Not(mask)) | (s[i] & mask), 4)
Setup(r, key) ==
    LET n == IF r = 0 THEN 25 ELSE r
        f80(st, i) == LET k == st[1]
                          s == Low(k, 15)
                          q == << (Rol16(s[1], 8) \oplus s[2]) \oplus RC[i + 1], s[3], s[4], Rol16(s[4], 12) \oplus k[5], s[1] >>
                      IN <<q, Append(st[2], Take(q, 4))>>
        f128(st, i) == LET s == Low(st[1], 255)
                           q == << (Rol(s[1], 8) \oplus s[2]) \oplus RC[i + 1], s[3], Rol(s[3], 16) \oplus s[4], s[1] >>
                       IN <<q, Append(st[2], S16(q))>>
        a == WordsBE16(PadTo(key, 10))
        b == WordsBE32(PadTo(key, 16))
    IN [n |-> n, k |-> IF Len(key) <= 10 THEN Iter(f80, <<a, <<Take(a, 4)>> >>, n)[2] ELSE Iter(f128, <<b, <<S16(b)>> >>, n)[2]]
Enc(ks, pt) ==
    LET f(x, i) == LET s == S16(S(XorW(x, ks.k[i + 1])))
                   IN <<s[1], Rol16(s[2], 1), Rol16(s[3], 12), Rol16(s[4], 13)>>
    IN BytesBE16(XorW(Iter(f, WordsBE16(pt), ks.n), ks.k[ks.n + 1]))
==============================================================================

-------------------------------- MODULE Mac --------------------------------
(***************************************************************************)
(* Message authentication codes.                                           *)
(*   n "hmac" (b: hash), "omac", "xcbc" (b: block cipher),                 *)
(*     "keccak1600", "keccak800", "skein256/512/1024" (b empty)            *)
(* The state is the key material and the message so far; the tag is a      *)
(* function of these.                                                      *)
(***************************************************************************)
EXTENDS Bytes
LOCAL HH == INSTANCE Hash
LOCAL BB == INSTANCE Block
LOCAL SKE == INSTANCE Skein
LOCAL SkeinBytes(n) == CASE n = "skein256" -> 32 [] n = "skein512" -> 64 [] n = "skein1024" -> 128
SkeinMacs == {"skein256", "skein512", "skein1024"}
KeccakMacs == {"keccak800", "keccak1600"}

\* largest tag (0: not fixed) and largest key (-1: any)
MInfo(n, b) == CASE n = "hmac" -> [mt |-> HH!HInfo(b).mo, mk |-> -1]
                 [] n = "omac" -> [mt |-> BB!BInfo(b).bs, mk |-> BB!BInfo(b).mk]
                 [] n = "xcbc" -> [mt |-> BB!BInfo(b).bs, mk |-> BB!BInfo(b).mk]
                 [] n = "keccak1600" -> [mt |-> 99, mk |-> -1]
                 [] n = "keccak800" -> [mt |-> 49, mk |-> -1]
                 [] n \in SkeinMacs -> [mt |-> SkeinBytes(n), mk |-> -1]

\* ---------------------------------------------------------------------- CMAC
\* reduction polynomial of GF(2^(8 bs)): low bytes
LOCAL Poly(bs) == CASE bs = 4 -> <<141>> [] bs = 8 -> <<27>> [] bs = 12 -> <<6, 65>> [] bs = 16 -> <<135>>
                    [] bs = 32 -> <<4, 37>> [] bs = 64 -> <<1, 37>> [] bs = 128 -> <<8, 0, 67>>
LOCAL Dbl(s) == LET n == Len(s)
                    t == Tab(LAMBDA i : ((s[i] * 2) % 256) + (IF i < n THEN s[i + 1] \div 128 ELSE 0), n)
                    p == Poly(n)
                IN IF s[1] >= 128 THEN XorB(t, Zeros(n - Len(p)) \o p) ELSE t
\* CBC-MAC of whole blocks from a zero start
LOCAL CbcMac(b, k, m, bs) == FoldS(LAMBDA c, x : BB!BEnc(b, k, <<>>, XorB(c, x)), Zeros(bs), BlocksOf(m, bs))
\* the last block: complete -> xor ka; else padded by 10* -> xor kb
LOCAL Cmac(b, k, ka, kb, m, bs) ==
    LET n == Len(m)
        full == n > 0 /\ n % bs = 0
        cut == IF full THEN n - bs ELSE n - (n % bs)
        last == IF full THEN XorB(Drop(m, cut), ka) ELSE XorB(PadTo(Drop(m, cut) \o <<128>>, bs), kb)
    IN BB!BEnc(b, k, <<>>, XorB(CbcMac(b, k, Take(m, cut), bs), last))

\* ---------------------------------------------------------------------- HMAC
LOCAL HmacKey(b, r, key, x) ==
    LET bs == HH!HInfo(b).bs
    IN PadTo(IF Len(key) > bs THEN HH!HAll(b, r, <<>>, Min2(x, bs), key, Min2(x, bs)) ELSE key, bs)
LOCAL Pad(k, v) == XorB(k, Rep(v, Len(k)))
\* tag of len bytes for a MAC made for x bytes
LOCAL HmacTag(st, len) ==
    LET inner == HH!HOut(HH!HIn(st.g, st.m), len).o
    IN HH!HAll(st.b, st.r, <<>>, len, Pad(st.k, 92) \o inner, len)

MNew(n, b, r, key, x) ==
    CASE n = "hmac" -> LET k == HmacKey(b, r, key, x)
                       IN [n |-> n, b |-> b, r |-> r, x |-> x, k |-> k, m |-> <<>>, t |-> <<>>, p |-> 0, fin |-> FALSE,
                           g |-> HH!HIn(HH!HInit(b, r, <<>>, x), Pad(k, 54))]
      [] n = "omac" -> LET k == BB!BSched(b, r, key)
                           k1 == Dbl(BB!BEnc(b, k, <<>>, Zeros(BB!BInfo(b).bs)))
                       IN [n |-> n, b |-> b, k |-> k, ka |-> k1, kb |-> Dbl(k1), m |-> <<>>, t |-> <<>>, p |-> 0, fin |-> FALSE]
      [] n = "xcbc" -> LET k == BB!BSched(b, r, key)
                           bs == BB!BInfo(b).bs
                           e(v) == BB!BEnc(b, k, <<>>, Rep(v, bs))
                       IN [n |-> n, b |-> b, k |-> BB!BSched(b, r, e(1)), ka |-> e(2), kb |-> e(3), m |-> <<>>, t |-> <<>>, p |-> 0, fin |-> FALSE]
      [] n \in KeccakMacs -> [n |-> n, g |-> HH!HIn(HH!HInit(n, r, <<>>, x), key)]
      [] n \in SkeinMacs -> [n |-> n, r |-> r, g |-> SKE!Start(SkeinBytes(n), r, key, SKE!Bits(x), <<>>), m |-> <<>>, t |-> <<>>, p |-> 0, fin |-> FALSE]
MIn(st, d) == IF st.n \in KeccakMacs THEN [st EXCEPT !.g = HH!HIn(@, d)] ELSE [st EXCEPT !.m = @ \o d]
LOCAL Full(st, len) ==
    CASE st.n = "hmac" -> HmacTag(st, len)
      [] st.n \in {"omac", "xcbc"} -> Cmac(st.b, st.k, st.ka, st.kb, st.m, BB!BInfo(st.b).bs)
      [] st.n \in SkeinMacs -> LET nb == SkeinBytes(st.n) IN SKE!OutBlock(nb, st.r, SKE!UBI(nb, st.r, st.g, st.m, SKE!TMsg), 0)
\* the next len bytes of the tag
MTag(st, len) ==
    IF st.n \in KeccakMacs THEN LET q == HH!HOut(st.g, len) IN [st |-> [st EXCEPT !.g = q.st], o |-> q.o]
    ELSE LET t == IF st.fin THEN st.t ELSE Full(st, len)
         IN [st |-> [st EXCEPT !.fin = TRUE, !.t = t, !.p = @ + len, !.m = <<>>], o |-> Slice(t, st.p, len)]
MAll(n, b, r, key, m, x) == MTag(MIn(MNew(n, b, r, key, x), m), x).o
=============================================================================

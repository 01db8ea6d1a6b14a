------------------------------ MODULE Stream ------------------------------
(***************************************************************************)
(* Stream ciphers: the native ones and the block cipher modes.             *)
(*   SInfo(n, b)            largest key and iv (0: any... see kripto), granularity *)
(*   SNew(n, b, r, key, iv) a fresh object                                 *)
(*   SCrypt(st, d)          [st, o], encryption (and, for the additive     *)
(*                          ones, decryption) of d                         *)
(* A keystream generator is asked for whole blocks; unused bytes stay in   *)
(* st.buf, so how the data is cut makes no difference.                     *)
(***************************************************************************)
EXTENDS Bytes
LOCAL CH == INSTANCE Chacha
LOCAL SA == INSTANCE Salsa20
LOCAL R4 == INSTANCE Rc4
LOCAL SKE == INSTANCE Skein
LOCAL HH == INSTANCE Hash
LOCAL BB == INSTANCE Block

SkeinBytes(n) == CASE n = "skein256" -> 32 [] n = "skein512" -> 64 [] n = "skein1024" -> 128
SkeinStreams == {"skein256", "skein512", "skein1024"}
KeccakStreams == {"keccak800", "keccak1600"}
NativeStreams == {"chacha", "salsa20", "rc4"} \union (SkeinStreams \union KeccakStreams)
ModeStreams == {"cbc", "cfb", "ctr", "ecb", "ofb"}
Additive == NativeStreams \union {"ctr", "ofb"}
\* data must come in multiples of so many bytes
SMultOf(n, b) == IF n \in {"cbc", "ecb"} THEN BB!BInfo(b).bs ELSE 1

\* largest key and largest iv; -1: any length
SInfo(n, b) == CASE n \in {"chacha", "salsa20"} -> [mk |-> 32, mi |-> 24]
                 [] n = "rc4" -> [mk |-> 256, mi |-> 0]
                 [] n = "keccak1600" -> [mk |-> 99, mi |-> -1]
                 [] n = "keccak800" -> [mk |-> 49, mi |-> -1]
                 [] n \in SkeinStreams -> [mk |-> -1, mi |-> -1]
                 [] n = "ecb" -> [mk |-> BB!BInfo(b).mk, mi |-> 0]
                 [] n \in {"cbc", "cfb", "ctr", "ofb"} -> [mk |-> BB!BInfo(b).mk, mi |-> BB!BInfo(b).bs]

LOCAL Fresh(n, b, r, g) == [n |-> n, b |-> b, r |-> r, g |-> g, buf |-> <<>>]
SNew(n, b, r, key, iv) ==
    CASE n = "chacha" -> Fresh(n, b, r, CH!Start(r, key, iv))
      [] n = "salsa20" -> Fresh(n, b, r, SA!Start(r, key, iv))
      [] n = "rc4" -> Fresh(n, b, r, R4!Start(r, key))
      [] n \in KeccakStreams -> Fresh(n, b, r, HH!HIn(HH!HIn(HH!HInit(n, r, <<>>, Len(key)), key), iv))
      [] n \in SkeinStreams ->
            [n |-> n, b |-> b, r |-> r, buf |-> <<>>, c |-> 0, g |-> SKE!Start(SkeinBytes(n), r, key, Rep(255, 8), iv)]
      [] n \in ModeStreams ->
            LET bs == BB!BInfo(b).bs
            IN [n |-> n, b |-> b, r |-> r, buf |-> <<>>, bs |-> bs, k |-> BB!BSched(b, r, key), g |-> IF n = "ecb" THEN Zeros(bs) ELSE PadTo(iv, bs)]

\* big-endian counter over the whole block
IncBE(s) == LET f(a, i) == LET p == Len(s) - i
                           IN IF a.c = 0 THEN a ELSE [s |-> Patch(a.s, p - 1, <<(a.s[p] + 1) % 256>>), c |-> IF a.s[p] = 255 THEN 1 ELSE 0]
            IN Iter(f, [s |-> s, c |-> 1], Len(s)).s
\* one step of the keystream generator: more bytes in buf
LOCAL Gen(st) ==
    CASE st.n = "chacha" -> [st EXCEPT !.buf = @ \o CH!KS(st.r, st.g), !.g = CH!Inc(@)]
      [] st.n = "salsa20" -> [st EXCEPT !.buf = @ \o SA!KS(st.r, st.g), !.g = SA!Inc(@)]
      [] st.n = "rc4" -> LET q == R4!Byte(st.g) IN [st EXCEPT !.buf = Append(@, q.o), !.g = q]
      [] st.n \in KeccakStreams -> LET q == HH!HOut(st.g, 64) IN [st EXCEPT !.buf = @ \o q.o, !.g = q.st]
      [] st.n \in SkeinStreams -> [st EXCEPT !.buf = @ \o SKE!OutBlock(SkeinBytes(st.n), st.r, st.g, st.c), !.c = @ + 1]
      [] st.n = "ctr" -> [st EXCEPT !.buf = @ \o BB!BEnc(st.b, st.k, <<>>, st.g), !.g = IncBE(@)]
      [] st.n = "ofb" -> LET o == BB!BEnc(st.b, st.k, <<>>, st.g) IN [st EXCEPT !.buf = @ \o o, !.g = o]
LOCAL Need(st, k) == LET f(s, i) == IF Len(s.buf) >= k THEN s ELSE Gen(s) IN Iter(f, st, k)
\* k bytes of keystream
SKey(st, k) == LET s == Need(st, k) IN [st |-> [s EXCEPT !.buf = Drop(@, k)], o |-> Take(s.buf, k)]

\* CFB: buf holds the rest of the current keystream block, g the ciphertext bytes of it so far (all of the last block if buf is empty)
LOCAL Cfb(st, d, dec) ==
    LET f(a, x) == LET s == IF a.st.buf = <<>> THEN [a.st EXCEPT !.buf = BB!BEnc(st.b, st.k, <<>>, a.st.g), !.g = <<>>] ELSE a.st
                       y == x \oplus s.buf[1]
                   IN [st |-> [s EXCEPT !.buf = Tail(@), !.g = Append(@, IF dec THEN x ELSE y)], o |-> Append(a.o, y)]
    IN FoldS(f, [st |-> st, o |-> <<>>], d)
LOCAL Cbc(st, d) == LET f(a, b) == LET c == BB!BEnc(st.b, st.k, <<>>, XorB(a.st.g, b)) IN [st |-> [a.st EXCEPT !.g = c], o |-> a.o \o c]
                    IN FoldS(f, [st |-> st, o |-> <<>>], BlocksOf(d, st.bs))
LOCAL Ecb(st, d) == [st |-> st, o |-> FoldS(LAMBDA a, b : a \o BB!BEnc(st.b, st.k, <<>>, b), <<>>, BlocksOf(d, st.bs))]

SEnc(st, d) == IF d = <<>> THEN [st |-> st, o |-> <<>>]
               ELSE CASE st.n \in Additive -> LET q == SKey(st, Len(d)) IN [st |-> q.st, o |-> XorB(q.o, d)]
                      [] st.n = "cfb" -> Cfb(st, d, FALSE)
                      [] st.n = "cbc" -> Cbc(st, d)
                      [] st.n = "ecb" -> Ecb(st, d)
\* decryption of d to o: for CBC and ECB the plaintext is what encrypts to d
SDecOk(st, d, o) == CASE st.n \in Additive -> o = SEnc(st, d).o
                      [] st.n = "cfb" -> d = <<>> \/ o = Cfb(st, d, TRUE).o
                      [] st.n \in {"cbc", "ecb"} -> SEnc(st, o).o = d
SDec(st, d, o) == CASE st.n \in Additive -> SEnc(st, d).st
                    [] st.n = "cfb" -> IF d = <<>> THEN st ELSE Cfb(st, d, TRUE).st
                    [] st.n \in {"cbc", "ecb"} -> SEnc(st, o).st
\* k pseudo-random bytes
SPrng(st, k) == IF k = 0 THEN [st |-> st, o |-> <<>>] ELSE SEnc(st, Zeros(k))
\* z bytes (whole blocks) of keystream are passed over, for generators with a counter
SSkip(st, z) ==
    CASE st.n = "chacha" -> [st EXCEPT !.g = CH!Skip(@, z \div 64)]
      [] st.n = "salsa20" -> [st EXCEPT !.g = SA!Skip(@, z \div 64)]
      [] st.n \in SkeinStreams -> [st EXCEPT !.c = @ + (z \div SkeinBytes(st.n))]
=============================================================================

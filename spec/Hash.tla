-------------------------------- MODULE Hash --------------------------------
(* Hash objects.  The state of an object is its parameters and the message so far; the digest
   is a function of exactly these, so by construction it cannot depend on how the message was
   cut into pieces; reading the output only moves a position.  The Keccak sponges may also be
   fed again after output (duplex use): their state then carries over. *)
EXTENDS Bytes, LongFacts
LOCAL H1 == INSTANCE MD5
LOCAL H2 == INSTANCE SHA1
LOCAL H3 == INSTANCE SHA2_256
LOCAL H4 == INSTANCE SHA2_512
LOCAL H5 == INSTANCE Tiger
LOCAL H6 == INSTANCE Whirlpool
LOCAL H7 == INSTANCE Blake256
LOCAL H8 == INSTANCE Blake512
LOCAL H9 == INSTANCE Blake2b
LOCAL HA == INSTANCE Blake2s
LOCAL K16 == INSTANCE Keccak1600
LOCAL K8 == INSTANCE Keccak800
LOCAL SK == INSTANCE Skein

\* advertised limits: maximum output (0: any), block size, maximum salt (-1: any)
HInfo(n) == CASE n = "md5" -> [mo |-> 16, bs |-> 64, ms |-> 0]
              [] n = "sha1" -> [mo |-> 20, bs |-> 64, ms |-> 0]
              [] n = "sha2_256" -> [mo |-> 32, bs |-> 64, ms |-> 0]
              [] n = "sha2_512" -> [mo |-> 64, bs |-> 128, ms |-> 0]
              [] n = "tiger" -> [mo |-> 24, bs |-> 64, ms |-> 0]
              [] n = "whirlpool" -> [mo |-> 64, bs |-> 64, ms |-> 0]
              [] n = "blake256" -> [mo |-> 32, bs |-> 64, ms |-> 16]
              [] n = "blake512" -> [mo |-> 64, bs |-> 128, ms |-> 32]
              [] n = "blake2b" -> [mo |-> 64, bs |-> 128, ms |-> 16]
              [] n = "blake2s" -> [mo |-> 32, bs |-> 64, ms |-> 8]
              [] n = "keccak1600" -> [mo |-> 0, bs |-> 200, ms |-> 0]
              [] n = "sha3" -> [mo |-> 64, bs |-> 200, ms |-> 0]
              [] n = "keccak800" -> [mo |-> 0, bs |-> 100, ms |-> 0]
              [] n = "skein256" -> [mo |-> 0, bs |-> 32, ms |-> -1]
              [] n = "skein512" -> [mo |-> 0, bs |-> 64, ms |-> -1]
              [] n = "skein1024" -> [mo |-> 0, bs |-> 128, ms |-> -1]
HashNames == {"md5", "sha1", "sha2_256", "sha2_512", "tiger", "whirlpool", "blake256", "blake512",
              "blake2b", "blake2s", "keccak1600", "sha3", "keccak800", "skein256", "skein512", "skein1024"}
Sponges == {"keccak1600", "sha3", "keccak800"}
SkeinHashes == {"skein256", "skein512", "skein1024"}

Width(n) == IF n = "keccak800" THEN 100 ELSE 200
PermR(n, r, s) == IF n = "keccak800" THEN K8!F(IF r = 0 THEN 22 ELSE r, s) ELSE K16!F(IF r = 0 THEN 24 ELSE r, s)

\* Long messages.  A message of 2^29 or 2^32 (or so) bytes is not written down; it is described by
\* its first bytes - 2^29 - 256 or 2^32 - 256 bytes of value 90 -, of which the chaining value is known
\* (LongFacts.tla: computed from these definitions by LongRun.tla), and the rest.  Only the standard
\* number of rounds, no salt, and the longest output (Skein: the block size).
LongStart(n) ==
    CASE n = "md5" -> H1!Chain0 [] n = "sha1" -> H2!Chain0 [] n = "sha2_256" -> H3!Chain0(32) [] n = "sha2_512" -> H4!Chain0(64)
      [] n = "tiger" -> H5!Chain0 [] n = "whirlpool" -> H6!Chain0 [] n = "blake256" -> H7!Chain0(32) [] n = "blake512" -> H8!Chain0(64)
      [] n = "blake2b" -> H9!Chain0(<<>>, 64) [] n = "blake2s" -> HA!Chain0(<<>>, 32)
      [] OTHER -> SK!Start(HInfo(n).bs, 0, <<>>, SK!Bits(HInfo(n).bs), <<>>)
LongBlocks(n, h, pb, m) ==
    CASE n = "md5" -> H1!Blocks(h, pb, m) [] n = "sha1" -> H2!Blocks(h, pb, m) [] n = "sha2_256" -> H3!Blocks(0, h, pb, m)
      [] n = "sha2_512" -> H4!Blocks(0, h, pb, m) [] n = "tiger" -> H5!Blocks(0, h, pb, m) [] n = "whirlpool" -> H6!Blocks(0, h, pb, m)
      [] n = "blake256" -> H7!Blocks(0, <<>>, h, pb, m) [] n = "blake512" -> H8!Blocks(0, <<>>, h, pb, m)
      [] n = "blake2b" -> H9!Blocks(0, h, pb, m) [] n = "blake2s" -> HA!Blocks(0, h, pb, m)
      [] OTHER -> SK!Blocks(HInfo(n).bs, 0, h, pb, m)
\* bytes before the rest of a long message
LongBytes(e) == IF e = 29 THEN <<0, 536870656>> ELSE <<0, 0 - 256>>

\* all output bytes of the fixed-length functions
FixedDigest(n, r, salt, x, m) ==
    CASE n = "md5" -> H1!Digest(m)
      [] n = "sha1" -> H2!Digest(m)
      [] n = "sha2_256" -> H3!Digest(r, x, m)
      [] n = "sha2_512" -> H4!Digest(r, x, m)
      [] n = "tiger" -> H5!Digest(r, m)
      [] n = "whirlpool" -> H6!Digest(r, m)
      [] n = "blake256" -> H7!Digest(r, salt, x, m)
      [] n = "blake512" -> H8!Digest(r, salt, x, m)
      [] n = "blake2b" -> H9!Digest(r, salt, x, m)
      [] n = "blake2s" -> HA!Digest(r, salt, x, m)
LongDigest(n, h, pb, m) ==
    CASE n = "md5" -> H1!From(h, pb, m)
      [] n = "sha1" -> H2!From(h, pb, m)
      [] n = "sha2_256" -> H3!From(0, h, pb, m)
      [] n = "sha2_512" -> H4!From(0, h, pb, m)
      [] n = "tiger" -> H5!From(0, h, pb, m)
      [] n = "whirlpool" -> H6!From(0, h, pb, m)
      [] n = "blake256" -> H7!From(0, <<>>, 32, h, pb, m)
      [] n = "blake512" -> H8!From(0, <<>>, 64, h, pb, m)
      [] n = "blake2b" -> H9!From(0, h, pb, m)
      [] n = "blake2s" -> HA!From(0, h, pb, m)

HInit(n, r, salt, x) ==
    IF n \in Sponges THEN [n |-> n, r |-> r, rate |-> Width(n) - (2 * x), s |-> Zeros(Width(n)), m |-> <<>>, out |-> FALSE, p |-> 0]
    ELSE [n |-> n, r |-> r, k |-> salt, x |-> x, e |-> 0, m |-> <<>>, out |-> FALSE, p |-> 0, o |-> <<>>, g |-> <<>>]

\* ------------------------------------------------------------------ sponges
\* absorb the complete rate blocks of d; the rest stays in m
SpAbsorb(st, d) ==
    LET all == st.m \o d
        k == Len(all) \div st.rate
        f(s, b) == PermR(st.n, st.r, XorInto(s, b))
    IN [st EXCEPT !.s = FoldS(f, st.s, BlocksOf(all, st.rate)), !.m = Drop(all, k * st.rate)]
SpIn(st, d) == IF st.out THEN SpAbsorb([st EXCEPT !.out = FALSE, !.m = <<>>, !.p = 0], d) ELSE SpAbsorb(st, d)
\* padding byte of the first bit(s), closing bit 0x80
SpPad(st) == LET first == IF st.n = "sha3" THEN 6 ELSE 1
                 b == Patch(PadTo(st.m, st.rate), Len(st.m), <<first>>)
                 b2 == Patch(b, st.rate - 1, <<b[st.rate] \oplus 128>>)
             IN [st EXCEPT !.s = PermR(st.n, st.r, XorInto(st.s, b2)), !.m = <<>>, !.out = TRUE, !.p = 0]
\* k bytes of output; [st, o]
SpSqueeze(st, k) ==
    LET f(u, i) == IF Len(u.o) >= k THEN u
                   ELSE LET s0 == IF u.p = st.rate THEN PermR(st.n, st.r, u.s) ELSE u.s
                            q == IF u.p = st.rate THEN 0 ELSE u.p
                            t == Min2(k - Len(u.o), st.rate - q)
                        IN [s |-> s0, p |-> q + t, o |-> u.o \o Slice(s0, q, t)]
        e == Iter(f, [s |-> st.s, p |-> st.p, o |-> <<>>], (k \div st.rate) + 2)
    IN [st |-> [st EXCEPT !.s = e.s, !.p = e.p], o |-> e.o]
SpOut(st, k) == SpSqueeze(IF st.out THEN st ELSE SpPad(st), k)

\* ------------------------------------------------------------------- others
HIn(st, d) == IF st.n \in Sponges THEN SpIn(st, d) ELSE [st EXCEPT !.m = st.m \o d]
\* the first part of a long message (e: 29, 32)
HLong(st, e) == [st EXCEPT !.e = e]
HFinal(st) ==
    IF st.n \in SkeinHashes
    THEN LET nb == HInfo(st.n).bs
             g0 == IF st.e = 0 THEN SK!Start(nb, st.r, <<>>, SK!Bits(st.x), st.k) ELSE LongChain(st.n, st.e)
             pb == IF st.e = 0 THEN W64(0) ELSE LongBytes(st.e)
         IN [st EXCEPT !.out = TRUE, !.g = SK!UBIFrom(nb, st.r, g0, pb, st.m, SK!TMsg), !.m = <<>>]
    ELSE IF st.e = 0
    THEN [st EXCEPT !.out = TRUE, !.o = FixedDigest(st.n, st.r, st.k, st.x, st.m), !.m = <<>>]
    ELSE [st EXCEPT !.out = TRUE, !.o = LongDigest(st.n, LongChain(st.n, st.e), LongBytes(st.e), st.m), !.m = <<>>]
HOut(st0, k) ==
    IF st0.n \in Sponges THEN SpOut(st0, k)
    ELSE LET st1 == IF st0.out THEN st0 ELSE HFinal(st0)
             nb == HInfo(st0.n).bs
             need == st1.p + k
             more == IF st1.n \in SkeinHashes
                     THEN ((need + (nb - 1)) \div nb) - (Len(st1.o) \div nb) ELSE 0
             gen(o, i) == o \o SK!OutBlock(nb, st1.r, st1.g, Len(o) \div nb)
             st == IF more > 0 THEN [st1 EXCEPT !.o = Iter(gen, @, more)] ELSE st1
         IN [st |-> [st EXCEPT !.p = need], o |-> Slice(st.o, st.p, k)]
\* one message, one output
HAll(n, r, salt, x, m, k) == HOut(HIn(HInit(n, r, salt, x), m), k).o
=============================================================================

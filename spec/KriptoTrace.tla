---------------------------- MODULE KriptoTrace ----------------------------
(***************************************************************************)
(* Conformance: trace validation of the real library against the           *)
(* executable definitions of the primitives.                               *)
(*                                                                         *)
(* The trace (ndjson, file named by the environment variable TRACE) has    *)
(* one event per call made by the driver, with arguments and results.  The *)
(* state is the abstract state of every live object (by handle).  An event *)
(* is accepted iff the transition of the specification for that call with  *)
(* these arguments yields exactly the logged results.  A rejected event is *)
(* reported (Print) and the rest of its episode is skipped.                *)
(***************************************************************************)
EXTENDS Prim, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l,        \* next event
          objs,     \* handle -> abstract object state (only live handles in its domain)
          skip,     \* rest of the episode is skipped after a rejection
          ep,       \* current episode
          nbad      \* rejected episodes so far
vars == <<l, objs, skip, ep, nbad>>

E == Trace[l]
X(f) == Hex(f)
\* an unsigned limit as logged; -1 stands for UINT_MAX, "any"
U(x) == IF x = -1 THEN "4294967295" ELSE ToString(x)

\* the event agrees iff got = want; otherwise it is reported
Expect(what, got, want) ==
    IF got = want THEN TRUE
    ELSE /\ PrintT("REJECT|" \o ep \o "|" \o ToString(l) \o "|" \o E.op \o "|" \o what \o "|got " \o ToString(got) \o "|want " \o ToString(want))
         /\ FALSE

Refuse(what, got, want) ==
    /\ PrintT("REJECT|" \o ep \o "|" \o ToString(l) \o "|" \o E.op \o "|" \o what \o "|got " \o ToString(got) \o "|want " \o want)
    /\ FALSE

SetObj(h, st) == [x \in DOMAIN objs \union {h} |-> IF x = h THEN st ELSE objs[x]]
DelObj(h) == [x \in DOMAIN objs \ {h} |-> objs[x]]

\* Result of an event: [good, objs]
Good(b, o) == [good |-> b, objs |-> o]
\* a call that reports failure is only allowed when an allocation was made to fail
Failed(h) == Good(Expect("failure without cause", E.ft, 1), DelObj(h))
Created(st) == IF E.ok = 0 THEN Failed(E.h)
               ELSE Good(Expect("descriptor", E.gd, 1), SetObj(E.h, st))

HashStep ==
    CASE E.op = "HC" -> Created(HInit(E.n, E.r, X(E.k), E.x))
      [] E.op = "HR" -> Created(HInit(objs[E.h].n, E.r, X(E.k), E.x))
      [] E.op = "HI" -> Good(TRUE, SetObj(E.h, HIn(objs[E.h], X(E.i))))
      \* E.x bytes of value 90, after 2^29 - 256 or 2^32 - 256 such bytes if E.e is 29 or 32 (then right after creation)
      [] E.op = "HZ" -> LET s == objs[E.h]
                        IN Good(TRUE, SetObj(E.h, HIn(IF E.e = 0 THEN s ELSE HLong(s, E.e), Rep(90, E.x))))
      [] E.op = "HO" -> LET q == HOut(objs[E.h], E.x)
                        IN Good(Expect("digest", X(E.o), q.o), SetObj(E.h, q.st))
      [] E.op = "HX" -> Good(TRUE, DelObj(E.h))
      [] E.op = "HA" -> IF E.ok = 0 THEN Failed(E.h)
                        ELSE Good(Expect("digest", X(E.o), HAll(E.n, E.r, X(E.k), E.x, X(E.i), E.x)), objs)
      [] E.op = "HM" -> Good(Expect("limits", <<E.mo, E.bs, E.ms>>, <<U(HInfo(E.n).mo), HInfo(E.n).bs, U(HInfo(E.n).ms)>>), objs)

\* name of a block cipher; "gost" has its S-boxes in b
BName == IF E.n = "gost" THEN ("gost(" \o E.b) \o ")" ELSE E.n
BNew(n) == [n |-> n, k |-> BSched(n, E.r, X(E.k)), tw |-> <<>>]
BlockStep ==
    CASE E.op = "BC" -> Created(BNew(BName))
      [] E.op = "BR" -> Created(BNew(objs[E.h].n))
      [] E.op = "BT" -> Good(TRUE, SetObj(E.h, [objs[E.h] EXCEPT !.tw = X(E.i)]))
      [] E.op = "BE" -> LET s == objs[E.h] IN Good(Expect("ciphertext", X(E.o), BEnc(s.n, s.k, s.tw, X(E.i))), objs)
      \* the decryption of i is the block whose encryption is i
      [] E.op = "BD" -> LET s == objs[E.h] IN Good(Expect("encryption of the plaintext", BEnc(s.n, s.k, s.tw, X(E.o)), X(E.i)), objs)
      [] E.op = "BX" -> Good(TRUE, DelObj(E.h))
      [] E.op = "BM" -> Good(Expect("limits", <<E.bs, E.mk, E.mt>>, <<BInfo(BName).bs, BInfo(BName).mk, BInfo(BName).mt>>), objs)

\* name of what a mode, HMAC, ... is built on
Inner == E.b
\* output of an optional call that must agree with q
StreamNew(n, b) == [n |-> n, b |-> b, s |-> SNew(n, b, E.r, X(E.k), X(E.iv))]
StreamCreated(n, b) ==
    IF E.ok = 0 THEN Failed(E.h)
    ELSE Good(Expect("descriptor, granularity", <<E.gd, E.mo>>, <<1, SMultOf(n, b)>>), SetObj(E.h, StreamNew(n, b)))
StreamStep ==
    CASE E.op = "SC" -> StreamCreated(E.n, Inner)
      [] E.op = "SR" -> StreamCreated(objs[E.h].n, objs[E.h].b)
      [] E.op = "SE" -> LET q == SEnc(objs[E.h].s, X(E.i))
                        IN Good(Expect("ciphertext", X(E.o), q.o), SetObj(E.h, [objs[E.h] EXCEPT !.s = q.st]))
      [] E.op = "SD" -> LET s == objs[E.h].s
                        IN IF SDecOk(s, X(E.i), X(E.o)) THEN Good(TRUE, SetObj(E.h, [objs[E.h] EXCEPT !.s = SDec(s, X(E.i), X(E.o))]))
                           ELSE Good(Refuse("plaintext", X(E.o), "what encrypts to the ciphertext"), objs)
      [] E.op = "SP" -> LET q == SPrng(objs[E.h].s, E.x)
                        IN Good(Expect("generated bytes", X(E.o), q.o), SetObj(E.h, [objs[E.h] EXCEPT !.s = q.st]))
      \* whole blocks of keystream are passed over (only right after creation)
      [] E.op = "SK" -> Good(TRUE, SetObj(E.h, [objs[E.h] EXCEPT !.s = SSkip(@, E.z)]))
      [] E.op = "SX" -> Good(TRUE, DelObj(E.h))
      [] E.op = "SM" -> Good(Expect("limits", <<E.mk, E.mi>>, <<U(SInfo(E.n, Inner).mk), U(SInfo(E.n, Inner).mi)>>), objs)

MacStep ==
    CASE E.op = "MC" -> Created([n |-> E.n, b |-> Inner, s |-> MNew(E.n, Inner, E.r, X(E.k), E.x)])
      [] E.op = "MR" -> Created([objs[E.h] EXCEPT !.s = MNew(objs[E.h].n, objs[E.h].b, E.r, X(E.k), E.x)])
      [] E.op = "MI" -> Good(TRUE, SetObj(E.h, [objs[E.h] EXCEPT !.s = MIn(@, X(E.i))]))
      [] E.op = "MT" -> LET q == MTag(objs[E.h].s, E.x)
                        IN Good(Expect("tag", X(E.o), q.o), SetObj(E.h, [objs[E.h] EXCEPT !.s = q.st]))
      [] E.op = "MV" -> LET q == MTag(objs[E.h].s, Len(X(E.i)))
                        IN Good(Expect("verification", E.v = 1, q.o = X(E.i)), SetObj(E.h, [objs[E.h] EXCEPT !.s = q.st]))
      [] E.op = "MX" -> Good(TRUE, DelObj(E.h))
      [] E.op = "MA" -> IF E.ok = 0 THEN Failed(E.h)
                        ELSE Good(Expect("tag", X(E.o), MAll(E.n, Inner, E.r, X(E.k), X(E.i), E.x)), objs)
      [] E.op = "MM" -> Good(Expect("limits", <<E.mt, E.mk>>, <<U(MInfo(E.n, Inner).mt), U(MInfo(E.n, Inner).mk)>>), objs)

AeDesc == IF E.n = "eax" THEN [n |-> "eax", b |-> E.b] ELSE [n |-> "eax2", sn |-> E.sn, sb |-> E.sb, mn |-> E.mn, mb |-> E.mb]
AeCreated(d) ==
    IF E.ok = 0 THEN Failed(E.h)
    ELSE Good(Expect("descriptor, granularity", <<E.gd, E.mo>>, <<1, AMultOf(d)>>), SetObj(E.h, ANew(d, E.r, X(E.k), X(E.iv), E.x)))
AeStep ==
    CASE E.op = "AC" -> AeCreated(AeDesc)
      [] E.op = "AR" -> AeCreated(objs[E.h].d)
      [] E.op = "AH" -> Good(TRUE, SetObj(E.h, AHead(objs[E.h], X(E.i))))
      [] E.op = "AE" -> LET q == AEnc(objs[E.h], X(E.i)) IN Good(Expect("ciphertext", X(E.o), q.o), SetObj(E.h, q.st))
      [] E.op = "AD" -> IF ADecOk(objs[E.h], X(E.i), X(E.o)) THEN Good(TRUE, SetObj(E.h, ADec(objs[E.h], X(E.i), X(E.o))))
                        ELSE Good(Refuse("plaintext", X(E.o), "what encrypts to the ciphertext"), objs)
      [] E.op = "AT" -> Good(Expect("tag", X(E.o), ATag(objs[E.h], E.x)), objs)
      [] E.op = "AV" -> Good(Expect("verification", E.v = 1, ATag(objs[E.h], Len(X(E.i))) = X(E.i)), objs)
      [] E.op = "AX" -> Good(TRUE, DelObj(E.h))
      [] E.op = "AM" -> LET q == AInfo(AeDesc) IN Good(Expect("limits", <<E.mk, E.mi, E.mt>>, <<U(q.mk), U(q.mi), U(q.mt)>>), objs)

\* scrypt with N = 2^17, 2^18 takes TLC minutes: values of the definition for one password and salt
\* (with the environment variable nofacts, as in the thorough check, they are computed anew)
ScryptFact ==
    IF <<E.n, Inner, E.r, E.R, E.P, E.k, E.i, E.x>> # <<"hmac", "sha2_256", 0, 2, 1, "70617373776f7264", "4e61436c", 64>> THEN ""
    ELSE CASE E.N = 131072 -> "906baa3127c724e5babafc7c775757bc9580fe58881f9fcc7c0fa70cd2f0e33e94e0f5baf0d46d8c521f00f434891fd9f77c9809274f7cb714f51f018b7fb4e1"
           [] E.N = 262144 -> "ae0acb191d36e91453055d076255313c6b47999eda2e6a7056ece6527fd6565e66c3603af2f8a4ca837c4086f9861e7967fc038d452fa4c70635d8f0445e5d15"
           [] OTHER -> ""
KdfStep ==
    CASE E.op = "PB" -> IF ~PbOk(E.n, Inner) THEN Good(Expect("refusal", E.ok, 0), objs)
                        ELSE IF E.ok = 0 THEN Failed(E.h)
                        ELSE Good(Expect("derived key", X(E.o), Pbkdf2From(E.n, Inner, E.r, E.y, X(E.k), X(E.i), E.z, E.x)), objs)
      [] E.op = "SY" -> IF ~PbOk(E.n, Inner) THEN Good(Expect("refusal", E.ok, 0), objs)
                        ELSE IF E.ok = 0 THEN Failed(E.h)
                        ELSE Good(Expect("derived key", X(E.o), IF ScryptFact # "" /\ ~(("nofacts") \in DOMAIN IOEnv) THEN X(ScryptFact) ELSE Scrypt(E.n, Inner, E.r, E.N, E.R, E.P, X(E.k), X(E.i), E.x)), objs)

\* the configured random source: its content under handle 1000 ("none": missing, "any": the system's)
Src == IF 1000 \in DOMAIN objs THEN objs[1000] ELSE [k |-> "any", d |-> <<>>]
RandomStep ==
    \* a file, a pipe, or what the system's source is made to deliver
    CASE E.op \in {"RF", "RP", "RS"} -> Good(TRUE, SetObj(1000, [k |-> "file", d |-> X(E.i)]))
      [] E.op = "RN" -> Good(TRUE, SetObj(1000, [k |-> IF E.y = 0 THEN "none" ELSE "any", d |-> <<>>]))
      [] E.op = "RC" -> Good(Expect("creation", E.ok, IF Src.k = "none" THEN 0 ELSE 1), IF E.ok = 1 THEN SetObj(E.h, [any |-> Src.k = "any", src |-> Src.d, p |-> 0]) ELSE DelObj(E.h))
      [] E.op = "RG" -> LET s == objs[E.h]
                        IN IF s.any THEN Good(Expect("number of bytes", E.rc, E.x), objs)
                           ELSE LET k == Min2(E.x, Len(s.src) - s.p)
                                IN Good(Expect("random bytes", <<E.rc, X(E.o)>>, <<k, Slice(s.src, s.p, k)>>), SetObj(E.h, [s EXCEPT !.p = @ + k]))
      [] E.op = "RT" -> LET s == objs[E.h]
                        IN IF s.any THEN Good(TRUE, objs)
                           ELSE LET m == Slice(s.src, s.p, Min2(4096, Len(s.src) - s.p))
                                    o2 == SetObj(E.h, [s EXCEPT !.p = @ + Len(m)])
                                IN IF Len(m) < 4096 \/ Defective(m) THEN Good(Expect("self-test of a defective source", E.v, 0), o2)
                                   ELSE IF GoodSample(m) THEN Good(Expect("self-test of a good source", E.v, 1), o2)
                                   ELSE Good(TRUE, o2)
      [] E.op = "RX" -> Good(TRUE, DelObj(E.h))

MiscStep ==
    CASE E.op = "PA" -> LET q == PadAdd(X(E.i), E.y, E.x)
                        IN Good(Expect("padded length, data, rest of the buffer", <<E.rc, X(E.o), E.same>>, <<Len(q), q, 1>>), objs)
      [] E.op = "PR" -> Good(Expect("length without padding", E.rc, PadRem(X(E.i))), objs)
      [] E.op = "QE" -> Good(Expect("equality", E.v = 1, X(E.i) = X(E.k)), objs)
      [] E.op = "QW" -> Good(Expect("wiped buffer", X(E.o), Wiped(X(E.i), E.y, E.x)), objs)
      [] E.op = "VE" -> Good(Expect("version", E.v, <<0, 1, 0>>), objs)

WordStep ==
    CASE E.op \in {"WF", "WV"} -> Good(Expect("rotated word", X(E.o), Rotate(E.n, E.x, X(E.i))), objs)
      [] E.op \in {"WL", "WS"} -> Good(Expect("loaded or stored word", X(E.o), IF E.n = "B" THEN X(E.i) ELSE RevS(X(E.i))), objs)
      [] E.op = "WA" -> Good(Expect("loaded words", X(E.o), LoadArray(E.n, E.x \div 8, X(E.i))), objs)
      [] E.op = "WB" -> Good(Expect("stored bytes", X(E.o), StoreArray(E.n, E.x \div 8, X(E.i), E.y, E.z)), objs)

Step == CASE E.op \in {"HC", "HR", "HI", "HZ", "HO", "HX", "HA", "HM"} -> HashStep
          [] E.op \in {"BC", "BR", "BT", "BE", "BD", "BX", "BM"} -> BlockStep
          [] E.op \in {"SC", "SR", "SE", "SD", "SP", "SK", "SX", "SM"} -> StreamStep
          [] E.op \in {"MC", "MR", "MI", "MT", "MV", "MX", "MA", "MM"} -> MacStep
          [] E.op \in {"AC", "AR", "AH", "AE", "AD", "AT", "AV", "AX", "AM"} -> AeStep
          [] E.op \in {"PB", "SY"} -> KdfStep
          [] E.op \in {"RF", "RP", "RS", "RN", "RC", "RG", "RT", "RX"} -> RandomStep
          [] E.op \in {"PA", "PR", "QE", "QW", "VE"} -> MiscStep
          [] E.op \in {"WF", "WV", "WL", "WS", "WA", "WB"} -> WordStep
          [] E.op = "DC" -> IF E.ok = 0 THEN Failed(0) ELSE Good(TRUE, objs)
          [] E.op = "Crash" -> Good(Expect("crash, abort or hang", <<E.sig, E.code>>, <<0, 0>>), objs)
          [] E.op = "End" -> Good(TRUE, objs)
          [] OTHER -> Good(Expect("unknown event", E.op, ""), objs)

Init == l = 1 /\ objs = <<>> /\ skip = FALSE /\ ep = "" /\ nbad = 0
Next == /\ l <= N
        /\ l' = l + 1
        /\ IF E.op = "Begin" THEN /\ objs' = <<>> /\ skip' = FALSE /\ ep' = E.id /\ nbad' = nbad
           ELSE IF skip THEN UNCHANGED <<objs, skip, ep, nbad>>
           ELSE LET s == Step
                IN IF s.good THEN objs' = s.objs /\ UNCHANGED <<skip, ep, nbad>>
                   ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<objs, ep>>
Spec == Init /\ [][Next]_vars
Place == <<l, nbad>>
\* the whole trace was read
Done == l = N + 1 => PrintT("TRACE-DONE|" \o ToString(N) \o "|" \o ToString(nbad))
=============================================================================

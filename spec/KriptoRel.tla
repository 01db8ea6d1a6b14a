----------------------------- MODULE KriptoRel -----------------------------
(***************************************************************************)
(* Conformance: trace validation of the real library against a relational  *)
(* specification that does not say WHICH value a primitive computes, only  *)
(* what the calls of a history may depend on.                              *)
(*                                                                         *)
(* State: the abstract history of every live object (its parameters and    *)
(* what it has processed), the heap blocks it owns, and everything learned *)
(* so far in the current group of episodes:                                *)
(*   - a value is a function of its canonical history (hash: parameters    *)
(*     and the concatenated message; MAC, KDF, helpers alike), so equal    *)
(*     histories must give equal values - however the input was cut, who   *)
(*     computed it (one-shot or object, fresh or re-created), what other   *)
(*     objects or threads did meanwhile, and in which build;               *)
(*   - a block cipher under one key and tweak is a bijection;              *)
(*   - a stream or AE under one key and iv is a prefix-preserving          *)
(*     bijection between plaintexts and ciphertexts (so decryption undoes  *)
(*     encryption, cut in any way); generating is encrypting zeros;        *)
(*   - verification succeeds iff the tag is the one of this history;       *)
(*   - heap: objects own what they allocated until they are destroyed or   *)
(*     fail to be re-created; nothing else changes the heap;               *)
(*   - what released memory contains is a function of everything but the   *)
(*     secrets (twin episodes that differ in secrets only).                *)
(* Episodes of one group ("group:id") share what was learned.              *)
(* Classes of rules are switched on by environment variables (On).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bytes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l,      \* next event
          objs,   \* handle -> history of the object
          mem,    \* canonical history -> what was learned about it
          heap,   \* handle -> heap blocks it owns
          live,   \* heap blocks allocated in all
          thr,    \* handles of thread k are offset by 100 * k
          idx,    \* number of the event in its episode
          grp, ep, skip, nbad
vars == <<l, objs, mem, heap, live, thr, idx, grp, ep, skip, nbad>>

E == Trace[l]
Has(f) == f \in DOMAIN E
On(c) == c \in DOMAIN IOEnv
H == E.h + (100 * thr)

Expect(cls, what, got, want) ==
    IF got = want THEN TRUE
    ELSE IF ~On(cls) THEN TRUE
    ELSE /\ PrintT("REJECT|" \o ep \o "|" \o ToString(l) \o "|" \o E.op \o "|" \o cls \o ": " \o what \o "|got " \o ToString(got) \o "|want " \o ToString(want))
         /\ FALSE

Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Known(k) == k \in DOMAIN mem

\* -------------------------------------------------------------- canonical names
Bar(a, b) == (a \o "|") \o b
NM == IF Has("b") THEN Bar(E.n, E.b) ELSE Bar(Bar(E.n, Bar(E.sn, E.sb)), Bar(E.mn, E.mb))
KR(n) == Bar(Bar(n, ToString(E.r)), E.k)
Params(n) == IF Has("iv") THEN IF Has("x") THEN Bar(KR(n), Bar(E.iv, ToString(E.x))) ELSE Bar(KR(n), E.iv)
             ELSE IF Has("x") THEN Bar(KR(n), ToString(E.x)) ELSE KR(n)

\* -------------------------------------------------------------------- learning
\* result of a step: [good, o: objects, m: learned]
Res(g, o, m) == [good |-> g, o |-> o, m |-> m]

\* v is the value at key: the same as ever
Same(key, what, v, o) ==
    IF Known(key) THEN Res(Expect("value", what, v, mem[key]), o, mem) ELSE Res(TRUE, o, Put(mem, key, v))

\* bytes s are at position pos of the output that belongs to key
Learn(key, what, pos, s, o) ==
    IF ~Known(key) THEN Res(TRUE, o, IF pos = 0 THEN Put(mem, key, s) ELSE mem)
    ELSE LET k == mem[key]
             n == Max2(0, Min2(Len(s), Len(k) - pos))
         IN Res(Expect("value", what, Take(s, n), Slice(k, pos, n)), o,
                IF pos <= Len(k) /\ (pos + Len(s)) > Len(k) THEN Put(mem, key, Take(k, pos) \o s) ELSE mem)

\* verification of the bytes s at position pos
Verify(key, pos, s, v, o) ==
    IF Known(key) /\ Len(mem[key]) >= pos + Len(s)
    THEN Res(Expect("value", "verification", v = 1, Slice(mem[key], pos, Len(s)) = s), o, mem)
    ELSE IF Known(key) /\ Len(mem[key]) > pos /\ v = 1
    THEN Res(Expect("value", "verification of a tag with a wrong beginning", Take(s, Len(mem[key]) - pos), Drop(mem[key], pos)), o, Put(mem, key, Take(mem[key], pos) \o s))
    ELSE IF v = 0 THEN Res(TRUE, o, mem)
    ELSE Res(Expect("forged", "accepted the tag of another message", Len(s) >= 8, FALSE), o, IF pos = 0 THEN Put(mem, key, s) ELSE mem)

\* -------------------------------------------------------------------- bijections
PairOk(S, p, c) == \A q \in S : (q[1] = p) <=> (q[2] = c)
Pair(key, p, c, o) ==
    LET S == IF Known(key) THEN mem[key] ELSE {}
    IN Res(Expect("value", "bijection", PairOk(S, p, c), TRUE), o, Put(mem, key, S \union {<<p, c>>}))

\* how many of the first n units of u bytes of a and b agree
Common(u, a, b, n) ==
    LET f(k, i) == LET t == k + (2 ^ (21 - i))
                   IN IF t <= n /\ Slice(a, k * u, (t - k) * u) = Slice(b, k * u, (t - k) * u) THEN t ELSE k
    IN Iter(f, 0, 22)
\* two transcripts of the same stream, compared in units of u bytes: the ciphertexts agree exactly as far as the plaintexts do
Agree(u, p1, c1, p2, c2) ==
    LET n == Min2(Len(p1), Len(p2)) \div u
    IN IF Take(p1, n * u) = Take(p2, n * u) THEN Take(c1, n * u) = Take(c2, n * u)
       ELSE Common(u, p1, p2, n) = Common(u, c1, c2, n)
Prefix(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a
\* the transcript so far (p, c) against all others of the same parameters; kept in the set
Transcript(key, u, p, c, o) ==
    LET S == IF Known(key) THEN mem[key] ELSE {}
        g == Expect("value", "transcript", {q \in S : ~Agree(u, q[1], q[2], p, c)}, {})
    IN Res(g, o, IF \E q \in S : Prefix(p, q[1]) /\ Prefix(c, q[2]) THEN mem
                 ELSE Put(mem, key, {q \in S : ~(Prefix(q[1], p) /\ Prefix(q[2], c))} \union {<<p, c>>}))

\* ------------------------------------------------------------------------- calls
Kind == SubSeq(E.op, 1, 1)
\* creation and re-creation: a fresh history
Fresh(n, x) ==
    IF E.ok = 0 THEN Res(Expect("failure", "failure without cause", E.ft, 1), Del(objs, H), mem)
    ELSE LET o == Put(objs, H, [n |-> n, key |-> Bar(Kind, Params(n)), u |-> IF Has("mo") THEN E.mo ELSE 1, m |-> "", p |-> <<>>, c |-> <<>>, pos |-> 0, x |-> x])
         IN IF ~Expect("value", "descriptor", E.gd, 1) THEN Res(FALSE, o, mem)
            ELSE IF Has("mo") THEN Same(Bar("multof", n), "granularity", E.mo, o) ELSE Res(TRUE, o, mem)
Upd(r) == Put(objs, H, r)
S0 == objs[H]
MKey(s) == Bar(s.key, s.m)
\* more input: after output has been read, a new phase begins (sponges)
Absorb(s) == IF s.pos = 0 THEN [s EXCEPT !.m = @ \o E.i]
             ELSE [s EXCEPT !.m = (Bar(@, ToString(s.pos)) \o "|") \o E.i, !.pos = 0]
OneShot(key, what) ==
    IF E.ok = 0 THEN Res(Expect("failure", "failure without cause", E.ft, 1), objs, mem)
    ELSE Learn(key, what, 0, Hex(E.o), objs)
\* derivation: a refusal is a value, too
Derive(key) ==
    IF E.ft = 1 /\ E.ok = 0 THEN Res(TRUE, objs, mem)
    ELSE IF E.ok = 0 THEN Same(Bar("ok", key), "refusal", 0, objs)
    ELSE LET a == Same(Bar("ok", key), "success", 1, objs) IN
         IF ~a.good THEN a
         ELSE IF ~Known(key) THEN Res(TRUE, objs, Put(a.m, key, Hex(E.o)))
         ELSE Learn(key, "derived key", 0, Hex(E.o), objs)
Data(enc) ==
    LET s == S0
        s2 == IF enc THEN [s EXCEPT !.p = @ \o Hex(E.i), !.c = @ \o Hex(E.o)] ELSE [s EXCEPT !.p = @ \o Hex(E.o), !.c = @ \o Hex(E.i)]
    IN Transcript(Bar("data", s.key), s.u, s2.p, s2.c, Upd(s2))
TagKey(s) == Bar(Bar(s.key, s.m), ToString(s.c))
None == Res(TRUE, objs, mem)
Drop1 == Res(TRUE, Del(objs, H), mem)

CallStep ==
    CASE E.op \in {"HC", "MC", "SC", "AC", "BC"} -> Fresh(NM, "")
      [] E.op \in {"HR", "MR", "SR", "AR", "BR"} -> Fresh(S0.n, "")
      [] E.op \in {"HX", "MX", "SX", "AX", "BX"} -> Drop1
      [] E.op \in {"HI", "MI"} -> Res(TRUE, Upd(Absorb(S0)), mem)
      [] E.op = "HZ" -> Res(TRUE, Upd([S0 EXCEPT !.m = Bar(Bar(@, ToString(E.e)), ToString(E.x))]), mem)
      [] E.op \in {"HO", "MT"} -> LET s == S0 IN Learn(MKey(s), "output", s.pos, Hex(E.o), Upd([s EXCEPT !.pos = @ + E.x]))
      [] E.op = "MV" -> LET s == S0 IN Verify(MKey(s), s.pos, Hex(E.i), E.v, Upd([s EXCEPT !.pos = @ + Len(Hex(E.i))]))
      [] E.op \in {"HA", "MA"} -> OneShot(Bar(Bar(Kind, Params(NM)), E.i), "one-shot output")
      [] E.op = "BT" -> Res(TRUE, Upd([S0 EXCEPT !.m = E.i]), mem)
      [] E.op = "BE" -> Pair(MKey(S0), Hex(E.i), Hex(E.o), objs)
      [] E.op = "BD" -> Pair(MKey(S0), Hex(E.o), Hex(E.i), objs)
      [] E.op \in {"SE", "SP", "AE"} -> Data(TRUE)
      [] E.op \in {"SD", "AD"} -> Data(FALSE)
      [] E.op = "SK" -> Res(TRUE, Upd([S0 EXCEPT !.key = Bar(Bar(@, "skip"), ToString(E.z))]), mem)
      [] E.op = "AH" -> Res(TRUE, Upd([S0 EXCEPT !.m = @ \o E.i]), mem)
      [] E.op = "AT" -> Learn(TagKey(S0), "tag", 0, Hex(E.o), objs)
      [] E.op = "AV" -> Verify(TagKey(S0), 0, Hex(E.i), E.v, objs)
      [] E.op = "PB" -> Derive(Bar(Bar("PB", KR(NM)), Bar(E.i, ToString(<<E.y, E.z>>))))
      [] E.op = "SY" -> Derive(Bar(Bar("SY", KR(NM)), Bar(E.i, ToString(<<E.N, E.R, E.P>>))))
      [] E.op = "HM" -> Same(Bar("HM", NM), "limits", <<E.mo, E.bs, E.ms>>, objs)
      [] E.op = "BM" -> Same(Bar("BM", NM), "limits", <<E.bs, E.mk, E.mt>>, objs)
      [] E.op = "SM" -> Same(Bar("SM", NM), "limits", <<E.mk, E.mi>>, objs)
      [] E.op = "MM" -> Same(Bar("MM", NM), "limits", <<E.mt, E.mk>>, objs)
      [] E.op = "AM" -> Same(Bar("AM", NM), "limits", <<E.mk, E.mi, E.mt>>, objs)
      [] E.op = "DC" -> IF E.ok = 0 THEN Res(Expect("failure", "failure without cause", E.ft, 1), objs, mem) ELSE None
      [] E.op = "PA" -> Same(Bar("PA", Bar(E.i, ToString(<<E.x, E.y>>))), "padding", <<E.rc, E.same, E.o>>, objs)
      [] E.op = "PR" -> Same(Bar("PR", E.i), "length without padding", E.rc, objs)
      [] E.op = "QE" -> Same(Bar("QE", Bar(E.i, E.k)), "equality", E.v, objs)
      [] E.op = "QW" -> Same(Bar("QW", Bar(E.i, ToString(<<E.x, E.y>>))), "wiped buffer", E.o, objs)
      [] E.op = "VE" -> Same("VE", "version", E.v, objs)
      [] E.op \in {"WF", "WV"} -> Same(Bar(E.op, Bar(E.i, ToString(<<E.n, E.x>>))), "rotated word", E.o, objs)
      [] E.op \in {"RF", "RP", "RS", "RN", "RC", "RG", "RT", "RX"} -> None
      [] E.op = "Crash" -> Res(Expect("crash", "crash, abort or hang", <<E.sig, E.code>>, <<0, 0>>), objs, mem)
      [] OTHER -> Res(Expect("value", "unknown event", E.op, ""), objs, mem)

\* ------------------------------------------------------------------------- heap
Owned == IF H \in DOMAIN heap THEN heap[H] ELSE 0
Delta == E.live - live
Heap(g, h) == [good |-> g, heap |-> h]
HeapStep ==
    IF E.live = -1 THEN Heap(TRUE, heap)  \* in a thread
    ELSE CASE E.op \in {"HC", "MC", "SC", "AC", "BC"} ->
                IF E.ok = 0 THEN Heap(Expect("heap", "blocks left behind by a failed creation", Delta, 0), heap)
                ELSE Heap(Expect("heap", "creation released blocks of others", Delta >= 0, TRUE), Put(heap, H, Delta))
           [] E.op \in {"HR", "MR", "SR", "AR", "BR"} ->
                IF E.ok = 0 THEN Heap(Expect("heap", "blocks left behind by a failed re-creation", Delta, 0 - Owned), Del(heap, H))
                ELSE Heap(Expect("heap", "blocks owned after re-creation", Owned + Delta >= 0, TRUE), Put(heap, H, Owned + Delta))
           [] E.op \in {"HX", "MX", "SX", "AX", "BX"} -> Heap(Expect("heap", "blocks left behind after destruction", Delta, 0 - Owned), Del(heap, H))
           [] E.op \in {"HI", "HZ", "HO", "MI", "MT", "MV", "SE", "SD", "SP", "SK", "AH", "AE", "AD", "AT", "AV", "BE", "BD", "BT"} ->
                Heap(TRUE, IF H \in DOMAIN heap THEN Put(heap, H, Owned + Delta) ELSE heap)
           [] OTHER -> Heap(Expect("heap", "blocks left behind by a call", Delta, 0), heap)

\* what is learned besides: contents of released memory, work done
Side(m) ==
    LET fk == Bar("freed", ToString(<<idx, E.op>>))
        sk == Bar("steps", ToString(<<E.op, Len(E.i)>>))
        f == Has("freed") /\ On("freed")
        s == Has("steps") /\ On("steps") /\ E.op = "QE"
    IN IF f THEN IF fk \in DOMAIN m THEN [good |-> Expect("freed", "contents of released memory depend on secrets", E.freed, m[fk]), m |-> m]
                 ELSE [good |-> TRUE, m |-> Put(m, fk, E.freed)]
       ELSE IF s THEN IF sk \in DOMAIN m THEN [good |-> Expect("steps", "work depends on the data", E.steps, m[sk]), m |-> m]
                      ELSE [good |-> TRUE, m |-> Put(m, sk, E.steps)]
       ELSE [good |-> TRUE, m |-> m]

MemOk == IF Has("bad") THEN IF E.bad = 0 THEN TRUE ELSE Expect("mem", "memory error", E.why, "none") ELSE TRUE

Fail == skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<objs, mem, heap, live, thr, idx, grp, ep>>
Init == /\ l = 1 /\ objs = <<>> /\ mem = <<>> /\ heap = <<>> /\ live = 0 /\ thr = 0 /\ idx = 0
        /\ grp = "" /\ ep = "" /\ skip = FALSE /\ nbad = 0
Next ==
    /\ l <= N
    /\ l' = l + 1
    /\ IF E.op = "Begin"
       THEN /\ objs' = <<>> /\ heap' = <<>> /\ live' = 0 /\ thr' = 0 /\ idx' = 0 /\ skip' = FALSE /\ ep' = E.id /\ nbad' = nbad
            /\ grp' = E.g /\ mem' = IF E.g # "" /\ E.g = grp THEN mem ELSE <<>>
       ELSE IF skip THEN UNCHANGED <<objs, mem, heap, live, thr, idx, grp, ep, skip, nbad>>
       ELSE IF E.op = "Thread" THEN thr' = E.x + 1 /\ UNCHANGED <<objs, mem, heap, live, idx, grp, ep, skip, nbad>>
       ELSE IF E.op \in {"EndThreads", "End"}
       THEN IF MemOk /\ Expect("heap", "blocks allocated in the end", E.live, live)
            THEN thr' = 0 /\ UNCHANGED <<objs, mem, heap, live, idx, grp, ep, skip, nbad>> ELSE Fail
       ELSE IF E.op = "Crash" THEN IF CallStep.good THEN UNCHANGED <<objs, mem, heap, live, thr, idx, grp, ep, skip, nbad>> ELSE Fail
       ELSE IF ~MemOk THEN Fail
       ELSE LET a == CallStep
            IN IF ~a.good THEN Fail
               ELSE LET b == HeapStep
                    IN IF ~b.good THEN Fail
                       ELSE LET c == Side(a.m)
                            IN IF ~c.good THEN Fail
                               ELSE /\ objs' = a.o /\ mem' = c.m /\ heap' = b.heap /\ live' = IF E.live = -1 THEN live ELSE E.live
                                    /\ idx' = idx + 1 /\ UNCHANGED <<thr, grp, ep, skip, nbad>>
Spec == Init /\ [][Next]_vars
Place == <<l, nbad>>
Done == l = N + 1 => PrintT("TRACE-DONE|" \o ToString(N) \o "|" \o ToString(nbad))
=============================================================================

------------------------------- MODULE Kripto -------------------------------
(***************************************************************************)
(* The library as its users see it: a state machine over histories of      *)
(* calls.  Any number of objects (hash, MAC, stream, block cipher, AE) are *)
(* created, used by calls of any length, re-created with other parameters, *)
(* destroyed, in any interleaving, while any allocation may fail.          *)
(*                                                                         *)
(* Two descriptions of the same behaviour are run side by side:            *)
(*   - objs, heap: what the implementation keeps - one record per object   *)
(*     whose fields are overwritten by re-creation, the memory blocks of   *)
(*     an object and of its parts, allocated one after the other (each may *)
(*     fail), wiped and released on every way out;                         *)
(*   - hist: the calls so far.  What a call must answer is defined on the  *)
(*     history alone: by the object's latest creation or re-creation and   *)
(*     the data it was given since, regardless of how that was cut, of what *)
(*     was there before and of all other objects.                          *)
(* TLC checks that the two agree (invariants below) for every history up   *)
(* to a bound.  The same module generates the histories that are replayed  *)
(* into the real code: every history up to the bound (PrintAll) or random  *)
(* walks (tlc -simulate, PrintWalk); tools/walks.py puts in real algorithms *)
(* and data, and KriptoTrace / KriptoRel judge what the code did.          *)
(* Lengths are counted in a toy block of 4 bytes: walks.py scales them to  *)
(* the block of the real algorithm (q blocks and 0, 1, some or all but one *)
(* byte).                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Handles,   \* e.g. {0, 1}
          Kinds,     \* \subseteq {"h", "m", "s", "g", "b", "a"}   (g: stream that takes whole blocks)
          Pars,      \* parameter sets; the higher, the more memory a block cipher may need
          Lens,      \* lengths of calls
          Faults,    \* allocations that may fail: 0 (none), 1, 2, ...
          Depth,     \* calls in a history
          MaxCreate, \* creations and re-creations in a history
          Show       \* "", "all", "walk"
VARIABLES objs, heap, hist
vars == <<objs, heap, hist>>

Nil == [kind |-> ""]
Live(h) == objs[h].kind # ""
B == 4

\* ---------------------------------------------------------------- memory
\* the blocks of an object, in the order in which they are allocated; "~": only during the call
Parts(kind) ==
    CASE kind = "h" -> <<"s">>
      [] kind = "b" -> <<"s">>
      [] kind = "m" -> <<"s", "hash", "~">>
      [] kind \in {"s", "g"} -> <<"s", "block">>
      [] kind = "a" -> <<"~", "s", "mac", "mac.block", "stream", "stream.block", "header", "header.block">>
\* parts that must be allocated anew for more demanding parameters
Sized(part) == part \in {"block", "mac.block", "stream.block", "header.block"}
Own(kind) == {Parts(kind)[i] : i \in 1..Len(Parts(kind))} \ {"~"}
\* runs the allocations of a list of steps <<"get", u>>, <<"drop", u>>: memory, the number of
\* allocations, success.  f: the allocation that fails
RunSteps(steps, mine, f) ==
    LET F[i \in 0..Len(steps)] ==
          IF i = 0 THEN [mine |-> mine, n |-> 0, ok |-> TRUE]
          ELSE LET r == F[i - 1]
                   t == steps[i]
               IN IF ~r.ok THEN r
                  ELSE IF t[1] = "drop" THEN [r EXCEPT !.mine = @ \ {t[2]}]
                  ELSE IF f = r.n + 1 THEN [mine |-> {}, n |-> r.n + 1, ok |-> FALSE]  \* every way out releases all
                  ELSE [r EXCEPT !.mine = @ \union {t[2]}, !.n = @ + 1]
        r == F[Len(steps)]
    IN [r EXCEPT !.mine = @ \ {"~"}]
CreateSteps(kind) == [i \in 1..Len(Parts(kind)) |-> <<"get", Parts(kind)[i]>>]
RecreateSteps(kind, bigger) ==
    LET P == Parts(kind)
        F[i \in 0..Len(P)] == IF i = 0 THEN <<>>
            ELSE F[i - 1] \o (IF P[i] = "~" THEN <<<<"get", "~">>>>
                              ELSE IF (Sized(P[i]) \/ kind = "b") /\ bigger THEN <<<<"drop", P[i]>>, <<"get", P[i]>>>> ELSE <<>>)
    IN F[Len(P)]

\* ---------------------------------------------------------------- what an object keeps
\* par: from the latest (re-)creation; d: data; t: associated data; o: output so far; done: nothing but re-creation may follow
Fields(kind, par, size) == [kind |-> kind, par |-> par, size |-> size, d |-> <<>>, t |-> 0, o |-> 0, done |-> FALSE]
\* re-creation overwrites field by field
Again(x, par) == [x EXCEPT !.par = par, !.size = IF par > @ THEN par ELSE @, !.d = <<>>, !.t = 0, !.o = 0, !.done = FALSE]
Rep(c, n) == [i \in 1..n |-> c]
\* what a call answers, from what the object keeps
Answer(x, op, n) ==
    CASE op \in {"HO", "MT", "MV"} -> <<"out", x.kind, x.par, Len(x.d), x.o>>
      [] op \in {"SE", "SD", "SP", "AE", "AD"} -> <<"data", x.kind, x.par, x.d, n>>
      [] op \in {"BE", "BD"} -> <<"block", x.par, op>>
      [] op \in {"AT", "AV"} -> <<"tag", x.par, x.d, x.t>>
      [] OTHER -> <<>>
Used(x, op, n) ==
    CASE op \in {"HI", "MI"} -> [x EXCEPT !.d = @ \o Rep("i", n)]
      [] op = "HO" -> [x EXCEPT !.o = @ + n]
      [] op \in {"MT", "MV", "AT", "AV"} -> [x EXCEPT !.done = TRUE]
      [] op \in {"SE", "SP", "AE"} -> [x EXCEPT !.d = @ \o Rep("e", n)]
      [] op \in {"SD", "AD"} -> [x EXCEPT !.d = @ \o Rep("d", n)]
      [] op = "AH" -> [x EXCEPT !.t = @ + n]
      [] OTHER -> x
\* what may be called
Ops(x) ==
    CASE x.kind = "h" -> IF x.o > 0 THEN {"HO"} ELSE {"HI", "HO"}
      [] x.kind = "m" -> IF x.done THEN {} ELSE {"MI", "MT", "MV"}
      [] x.kind = "s" -> {"SE", "SD", "SP"}
      [] x.kind = "g" -> {"SE", "SD"}
      [] x.kind = "b" -> {"BE", "BD"}
      [] x.kind = "a" -> IF x.done THEN {} ELSE {"AH", "AE", "AD", "AT", "AV"}
LensOf(kind, op) ==
    CASE op \in {"MT", "AT", "AV", "MV", "BE", "BD"} -> {0}
      [] op = "HO" -> Lens \ {0}
      [] kind = "g" -> {n \in Lens : n % B = 0}
      [] OTHER -> Lens

\* ---------------------------------------------------------------- calls
Ev(op, h, p, n, f, ok, ans) == [op |-> op, h |-> h, p |-> p, n |-> n, f |-> f, ok |-> ok, ans |-> ans]
Creations == Cardinality({i \in 1..Len(hist) : hist[i].op \in {"C", "R"}})
Memory(h, mine) == {b \in heap : b[1] # h} \union {<<h, u>> : u \in mine}
Create(h, kind, par, f) ==
    /\ ~Live(h) /\ Creations < MaxCreate
    /\ LET r == RunSteps(CreateSteps(kind), {}, f)
       IN /\ f <= r.n
          /\ objs' = [objs EXCEPT ![h] = IF r.ok THEN Fields(kind, par, par) ELSE Nil]
          /\ heap' = Memory(h, r.mine)
          /\ hist' = Append(hist, [Ev("C", h, par, 0, f, r.ok, <<>>) EXCEPT !.op = "C"] @@ [kind |-> kind])
Recreate(h, par, f) ==
    /\ Live(h) /\ Creations < MaxCreate
    /\ LET x == objs[h]
           r == RunSteps(RecreateSteps(x.kind, par > x.size), Own(x.kind), f)
       IN /\ f <= r.n
          /\ objs' = [objs EXCEPT ![h] = IF r.ok THEN Again(x, par) ELSE Nil]
          /\ heap' = Memory(h, r.mine)
          /\ hist' = Append(hist, Ev("R", h, par, 0, f, r.ok, <<>>) @@ [kind |-> x.kind])
Use(h, op, n) ==
    /\ Live(h) /\ op \in Ops(objs[h]) /\ n \in LensOf(objs[h].kind, op)
    /\ objs' = [objs EXCEPT ![h] = Used(@, op, n)]
    /\ hist' = Append(hist, Ev(op, h, 0, n, 0, TRUE, Answer(objs[h], op, n)) @@ [kind |-> objs[h].kind])
    /\ UNCHANGED heap
Destroy(h) ==
    /\ Live(h)
    /\ objs' = [objs EXCEPT ![h] = Nil] /\ heap' = Memory(h, {})
    /\ hist' = Append(hist, Ev("X", h, 0, 0, 0, TRUE, <<>>) @@ [kind |-> objs[h].kind])
Init == objs = [h \in Handles |-> Nil] /\ heap = {} /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E h \in Handles :
         \/ \E k \in Kinds, p \in Pars, f \in Faults : Create(h, k, p, f)
         \/ \E p \in Pars, f \in Faults : Recreate(h, p, f)
         \/ IF Live(h) THEN \E op \in Ops(objs[h]) : \E n \in LensOf(objs[h].kind, op) : Use(h, op, n) ELSE FALSE
         \/ Destroy(h)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Last == hist[Len(hist)]
\* the calls on the handle of the last event since its latest creation or re-creation before it
SinceIdx(i) == LET S == {j \in 1..(i - 1) : hist[j].h = hist[i].h /\ hist[j].op \in {"C", "R"}}
               IN CHOOSE j \in S : \A k \in S : k <= j
Mine(i) == LET s == SinceIdx(i) IN SelectSeq(SubSeq(hist, s + 1, i - 1), LAMBDA e : e.h = hist[i].h)
Sum(es, ops) == LET F[j \in 0..Len(es)] == IF j = 0 THEN 0 ELSE F[j - 1] + (IF es[j].op \in ops THEN es[j].n ELSE 0) IN F[Len(es)]
DataOf(es) == LET F[j \in 0..Len(es)] == IF j = 0 THEN <<>>
                    ELSE F[j - 1] \o (CASE es[j].op \in {"SE", "SP", "AE"} -> Rep("e", es[j].n) [] es[j].op \in {"SD", "AD"} -> Rep("d", es[j].n) [] OTHER -> <<>>)
              IN F[Len(es)]
\* the answer that the history calls for
Due(i) ==
    LET e == hist[i]
        p == hist[SinceIdx(i)].p
        es == Mine(i)
    IN CASE e.op \in {"HO", "MT", "MV"} -> <<"out", e.kind, p, Sum(es, {"HI", "MI"}), Sum(es, {"HO"})>>
         [] e.op \in {"SE", "SD", "SP", "AE", "AD"} -> <<"data", e.kind, p, DataOf(es), e.n>>
         [] e.op \in {"BE", "BD"} -> <<"block", p, e.op>>
         [] e.op \in {"AT", "AV"} -> <<"tag", p, DataOf(es), Sum(es, {"AH"})>>
         [] OTHER -> <<>>
AnswersDue == hist # <<>> => Last.ans = Due(Len(hist))
\* only the history since the latest (re-)creation counts: nothing kept distinguishes it from a creation
NothingKept == \A h \in Handles : Live(h) =>
    LET i == CHOOSE j \in 1..Len(hist) : hist[j].h = h /\ hist[j].op \in {"C", "R"} /\ \A k \in (j + 1)..Len(hist) : hist[k].h = h => hist[k].op \notin {"C", "R"}
    IN hist[i].ok /\ (i = Len(hist) => [objs[h] EXCEPT !.size = 0] = [Fields(hist[i].kind, hist[i].p, 0) EXCEPT !.size = 0])
\* live objects own exactly their parts; nothing is left behind by what failed or was destroyed
HeapExact == heap = UNION {{<<h, u>> : u \in Own(objs[h].kind)} : h \in {g \in Handles : Live(g)}}
\* a call has no effect on other objects
Isolation == [][\A h \in Handles : objs'[h] # objs[h] => hist'[Len(hist')].h = h]_vars
\* a call that reports failure leaves no object; without a fault there is no failure
FailureReported == hist # <<>> => /\ (~Last.ok => ~Live(Last.h))
                                  /\ (Last.f = 0 => Last.ok)

\* ---------------------------------------------------------------- histories for replay
ShowEv(e) == e.op \o "," \o ToString(e.h) \o "," \o e.kind \o "," \o ToString(e.p) \o "," \o ToString(e.n) \o "," \o ToString(e.f) \o "," \o (IF e.ok THEN "1" ELSE "0")
ShowAll == LET F[j \in 0..Len(hist)] == IF j = 0 THEN "" ELSE F[j - 1] \o " " \o ShowEv(hist[j]) IN F[Len(hist)]
Emit == (Show # "" /\ Len(hist) = Depth) => PrintT("HIST" \o ShowAll)
=============================================================================

------------------------------- MODULE Cover -------------------------------
(* What is left of a buffered object (Absorb, Modes) when only the number of bytes in its buffer is
   kept: calls op with n bytes take it from one position to another.  Absorb and Modes refine this
   (PROPERTY Position).  For a real block size it is small enough that every transition - every
   call of every length at every position - is replayed into the real code: EmitEdge prints them
   and tools/walks.py makes walks that cover them all.
   lazy: a full buffer is processed when more data arrives (BLAKE2, Skein, OMAC, keystreams), so
   positions are 0..B; otherwise at once, so they are 0..B-1. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS B, Lazy, Ops, Max,  \* calls of 0..Max bytes
          Full                \* every length; otherwise those that end, or leave as much as, near the edge of a block
VARIABLES pos, last
At(p, n) == LET q == p + n IN IF n = 0 THEN p ELSE IF ~Lazy THEN q % B ELSE IF q % B = 0 THEN B ELSE q % B
Init == pos = 0 /\ last = <<"", 0, 0>>
Call(op, n) == pos' = At(pos, n) /\ last' = <<op, n, pos>>
Near(p, n) == LET d == {0, 1, 2, B - 2, B - 1}
              IN n \in {0, 1, B - 1, B, B + 1, 2 * B} \/ (((p + n) % B) \in d /\ (p + n) < (3 * B))
Next == \E op \in Ops, n \in 0..Max : (Full \/ Near(pos, n)) /\ Call(op, n)
Spec == Init /\ [][Next]_<<pos, last>>
View == pos
Positions == pos \in 0..(IF Lazy THEN B ELSE B - 1)
EmitEdge == PrintT("EDGE " \o last'[1] \o " " \o ToString(last'[2]) \o " " \o ToString(pos) \o " " \o ToString(pos'))
=============================================================================

------------------------------- MODULE Source -------------------------------
(* The random source of lib/random.c: the system gives the bytes of the source in portions of its own
   choosing (a file, a pipe, a device); requests for any number of bytes, served from a buffer of R
   bytes.  However the portions fall, the requests deliver the source's bytes in order, none lost, none
   twice, none invented, and a request is short only at the end of the source. *)
EXTENDS Integers, Sequences
CONSTANTS Size,  \* bytes in the source
          R,     \* buffer of the reader
          Max    \* largest request
VARIABLES given,   \* bytes the system has delivered
          buf,     \* read, not delivered
          out,     \* delivered to the user
          want,    \* what is still missing of the request (-1: no request)
          short    \* a request ended short
vars == <<given, buf, out, want, short>>
Init == given = 0 /\ buf = <<>> /\ out = <<>> /\ want = -1 /\ short = FALSE
Min(a, b) == IF a < b THEN a ELSE b
Request(n) == want = -1 /\ want' = n /\ UNCHANGED <<given, buf, out, short>>
Serve == /\ want > 0 /\ buf # <<>>
         /\ LET k == Min(want, Len(buf))
            IN out' = out \o SubSeq(buf, 1, k) /\ buf' = SubSeq(buf, k + 1, Len(buf)) /\ want' = want - k
         /\ UNCHANGED <<given, short>>
\* one read of the system: 1 .. R bytes, as it likes
Read(k) == /\ want > 0 /\ buf = <<>> /\ given < Size /\ k <= Min(R, Size - given)
           /\ buf' = [i \in 1..k |-> given + i] /\ given' = given + k /\ UNCHANGED <<out, want, short>>
EndOfSource == want > 0 /\ buf = <<>> /\ given = Size /\ want' = -1 /\ short' = TRUE /\ UNCHANGED <<given, buf, out>>
Done == want = 0 /\ want' = -1 /\ UNCHANGED <<given, buf, out, short>>
Next == (\E n \in 0..Max : Request(n)) \/ Serve \/ (\E k \in 1..R : Read(k)) \/ EndOfSource \/ Done
Spec == Init /\ [][Next]_vars
InOrder == out = [i \in 1..Len(out) |-> i]
NothingLost == Len(out) + Len(buf) = given
ShortOnlyAtEnd == short => Len(out) = Size
=============================================================================

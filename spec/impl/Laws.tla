-------------------------------- MODULE Laws --------------------------------
(* Laws of the definitions in Misc.tla that the conformance checks use as oracles, for all small
   inputs: padding is exact and reversible and nothing else is taken for padding; comparison by
   accumulating differences (lib/memory.c) is equality, with work that depends on the length alone;
   rotations form a group; loading and storing arrays undo each other. *)
EXTENDS Misc, TLC, FiniteSets
CONSTANTS What, Top, MaxLen
VARIABLES m, k
vars == <<m, k>>
Strings(n) == UNION {[1..i -> 0..Top] : i \in 0..n}
\* ---- lib/pkcs7.c
PadOk == /\ LET p == PadAdd(m, k, 99)
            IN /\ Len(p) % k = 0 /\ Len(p) > Len(m) /\ Len(p) <= Len(m) + k
               /\ Take(p, Len(m)) = m /\ PadRem(p) = Len(m)
               /\ PadAdd(m, k, Len(p)) = p /\ PadAdd(m, k, Len(p) - 1) = <<>>
         \* whatever is taken for padded is a padded message
         /\ LET n == PadRem(m) IN n = Len(m) \/ (n < Len(m) /\ \A i \in (n + 1)..Len(m) : m[i] = Len(m) - n)
\* ---- lib/memory.c: d accumulates the differences; never leaves the loop early
Compare(a, b) == LET F[i \in 0..Len(a)] == IF i = 0 THEN [d |-> 0, steps |-> 0]
                                           ELSE [d |-> IF F[i - 1].d = 0 THEN XorB(<<a[i]>>, <<b[i]>>)[1] ELSE F[i - 1].d, steps |-> F[i - 1].steps + 1]
                 IN F[Len(a)]
CompareOk == \A b \in [1..Len(m) -> 0..Top] : (Compare(m, b).d = 0) = (m = b) /\ Compare(m, b).steps = Len(m)
WipeOk == \A i \in 0..Len(m) : \A j \in 0..(Len(m) - i) :
             LET w == Wiped(m, i, j) IN Len(w) = Len(m) /\ \A q \in 1..Len(m) : w[q] = IF q > i /\ q <= i + j THEN 0 ELSE m[q]
\* ---- loadstore.h, rotate.h
ArraysOk == \A d \in {"B", "L"} : \A w \in {2, 4, 8} :
              /\ StoreArray(d, w, LoadArray(d, w, m), 0, Len(m)) = m
              /\ Len(LoadArray(d, w, m)) = ((Len(m) + (w - 1)) \div w) * w
              /\ \A i \in 0..Len(m) : StoreArray(d, w, LoadArray(d, w, m), i, Len(m) - i) = Drop(m, i)
RotateOk == Len(m) \in {1, 2} =>
              /\ Rotate("R", k, Rotate("L", k, m)) = m
              /\ Rotate("L", k, m) = Rotate("R", (8 * Len(m)) - k, m)
              /\ \A j \in 0..(8 * Len(m)) : Rotate("L", j, Rotate("L", k, m)) = Rotate("L", (j + k) % (8 * Len(m)), m)
Holds == CASE What = "pad" -> PadOk [] What = "memory" -> CompareOk /\ WipeOk [] What = "words" -> ArraysOk /\ RotateOk
Init == m = <<>> /\ k \in IF What = "words" THEN 0..16 ELSE IF What = "pad" THEN 1..(Top + 1) ELSE {1}
Next == Len(m) < MaxLen /\ \E b \in 0..Top : m' = Append(m, b) /\ k' = k
Spec == Init /\ [][Next]_vars
=============================================================================

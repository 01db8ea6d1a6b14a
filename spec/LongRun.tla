------------------------------ MODULE LongRun ------------------------------
(* Computes, from the definitions, the chaining values of long messages: 2^29 - 256 and 2^32 - 256 bytes of value 90
   (the facts in LongFacts.tla).  NAME: the hash function; CHUNKS: messages of 2^16 bytes to absorb, the last of
   them 256 bytes short.  Run by tools/long_facts.py; takes from minutes to hours. *)
EXTENDS Prim, TLC, IOUtils
VARIABLES k, h
Chunk == Rep(90, 65536)
Target == CHOOSE n \in {4, 8192, 65536} : ToString(n) = IOEnv.CHUNKS
Name == IOEnv.NAME
At(i) == Shl64(W64(i), 16)
Init == k = 0 /\ h = LongStart(Name)
Next == /\ k < Target
        /\ h' = LongBlocks(Name, h, At(k), IF (k + 1) = Target THEN Take(Chunk, 65280) ELSE Chunk)
        /\ k' = k + 1
Spec == Init /\ [][Next]_<<k, h>>
Report == k = Target => PrintT("CHAIN|" \o Name \o "|" \o ToString(Target) \o "|" \o ToString(h))
=============================================================================

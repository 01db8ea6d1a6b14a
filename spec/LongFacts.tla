----------------------------- MODULE LongFacts -----------------------------
(* Chaining values after 2^29 - 256 (e = 29) or 2^32 - 256 (e = 32) bytes of value 90; standard parameters.
   Written by tools/long_facts.py from runs of LongRun.tla. *)
EXTENDS Integers
LongChain(n, e) ==
    CASE n = "blake256" /\ e = 29 ->
           <<-1384551816, 474179865, 276539946, -627618665, 1199336375, -387924396, -342150402, 1239123098>>
      [] n = "md5" /\ e = 29 ->
           <<-72647403, -8693433, 945692794, 818078975>>
      [] n = "sha1" /\ e = 29 ->
           <<-1618199851, 1003856511, 1768248316, -1656076199, -1703368150>>
      [] n = "sha2_256" /\ e = 29 ->
           <<-1725619972, 418985976, -625077829, 289701276, 193540615, 1679229676, -2104482928, 256600209>>
=============================================================================

------------------------------- MODULE Prim -------------------------------
(* All primitives of the library. *)
EXTENDS Hash, Block, Stream, Mac, Ae, Kdf, Misc
=============================================================================

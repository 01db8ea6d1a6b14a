------------------------------- MODULE Bytes -------------------------------
(* Byte-string helpers shared by all primitives. *)
EXTENDS Integers, Sequences, Words

\* consecutive blocks of n bytes (a shorter rest is dropped)
BlocksOf(s, n) == Tab(LAMBDA i : Slice(s, (i - 1) * n, n), Len(s) \div n)

\* consecutive blocks of n bytes, the last one may be shorter; <<>> for the empty string
Chunks(s, n) == Tab(LAMBDA i : SubSeq(s, ((i - 1) * n) + 1, IF i * n > Len(s) THEN Len(s) ELSE i * n),
                    (Len(s) + (n - 1)) \div n)

PadTo(s, n) == s \o Zeros(n - Len(s))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

BitLen64(s) == Shl64(W64(Len(s)), 3)
\* length in bits of pb bytes (a 64-bit word) and s
BitLenOf(pb, s) == Shl64(pb \uplus W64(Len(s)), 3)

\* Merkle-Damgard padding: one marker byte, zeros, the length field; a multiple of bs bytes
MDPad(msg, bs, marker, lenfield) ==
    LET used == (Len(msg) + 1) + Len(lenfield)
    IN ((msg \o <<marker>>) \o Zeros((bs - (used % bs)) % bs)) \o lenfield

\* XOR of a byte string onto the beginning of another
XorInto(s, t) == XorB(Take(s, Len(t)), t) \o Drop(s, Len(t))
=============================================================================

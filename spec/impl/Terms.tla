------------------------------- MODULE Terms -------------------------------
(* Symbolic bytes.  A byte is a set of atoms, exclusive or is the symmetric difference, 0 is the
   empty set: the free Boolean group over the atoms.  Block ciphers are free symbols that are
   inverse to each other, so that whatever is shown for terms holds for every block cipher, every
   key and every message of the lengths in question: nothing about the values is used.
   An atom is <<tag, key, argument, number>>. *)
EXTENDS Naturals, Sequences
Atom(t, k, a, n) == {<<t, k, a, n>>}
Zero == {}
Xor(a, b) == (a \ b) \union (b \ a)
XorB(a, b) == [j \in 1..Len(a) |-> Xor(a[j], b[j])]
ZeroB(n) == [j \in 1..n |-> Zero]
\* the block of the n-th generation of data
Data(g, k) == Atom("p", 0, <<>>, 1000 * g + k)
IsImage(t, b) == \E a \in (IF b[1] = {} THEN {} ELSE b[1]) : a[1] = t /\ \A j \in 1..Len(b) : b[j] = {<<t, a[2], a[3], j>>}
Inner(b, k) == LET a == CHOOSE a \in b[1] : TRUE IN IF a[2] = k THEN a[3] ELSE <<>>
Enc(k, b) == IF IsImage("D", b) /\ Inner(b, k) # <<>> THEN Inner(b, k) ELSE [j \in 1..Len(b) |-> {<<"E", k, b, j>>}]
Dec(k, b) == IF IsImage("E", b) /\ Inner(b, k) # <<>> THEN Inner(b, k) ELSE [j \in 1..Len(b) |-> {<<"D", k, b, j>>}]
Sub(s, i, j) == [k \in 1..(IF j < i THEN 0 ELSE j - i + 1) |-> s[i + k - 1]]
Cat(ss) == LET n == Len(ss)
               F[i \in 0..n] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i]
           IN F[n]
=============================================================================

----------------------------- MODULE WordsCheck -----------------------------
(* The Java overrides of Words agree with the pure TLA+ definitions (PureWords is a *)
(* textual copy of Words under a name that is not overridden).                      *)
EXTENDS Integers, Sequences, TLC
W == INSTANCE Words
P == INSTANCE PureWords
VARIABLE done

V == {0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, -1, -2,
      -65536, -65537, -2147483647, -2147483647 - 1, 305419896, -1985229329, 19088743, -559038737}
V64 == {<<0,0>>, <<0,1>>, <<0,-1>>, <<-1,-1>>, <<-2147483647 - 1, 0>>, <<1,0>>,
        <<305419896, -1985229329>>, <<-559038737, 19088743>>, <<0, -2147483647 - 1>>, <<2147483647, -1>>}
B == {0, 1, 2, 27, 77, 99, 127, 128, 200, 254, 255}
H == {0, 1, 255, 256, 4660, 32767, 32768, 43690, 65535}
Str == "00017f80ff0123456789abcdef10fedcba9876543210aa55"
By == W!Hex(Str)

Ok32 == \A a \in V : \A b \in V :
  /\ W!\oplus(a, b) = P!\oplus(a, b)   /\ W!&(a, b) = P!&(a, b)   /\ W!|(a, b) = P!|(a, b)
  /\ W!++(a, b) = P!++(a, b)           /\ W!--(a, b) = P!--(a, b) /\ W!**(a, b) = P!**(a, b)
  /\ W!LtU(a, b) = P!LtU(a, b)
OkUn == \A a \in V :
  /\ W!Not(a) = P!Not(a) /\ W!Neg(a) = P!Neg(a) /\ W!Be32(a) = P!Be32(a) /\ W!Le32(a) = P!Le32(a)
  /\ \A n \in 0..31 : /\ W!Shl(a, n) = P!Shl(a, n) /\ W!Shr(a, n) = P!Shr(a, n)
                      /\ W!Rol(a, n) = P!Rol(a, n) /\ W!Ror(a, n) = P!Ror(a, n)
  /\ \A k \in 0..3 : W!ByteOf(a, k) = P!ByteOf(a, k)
  /\ \A n \in {1, 2, 3, 7, 31, 32, 255, 257, 32768} : W!ModU(a, n) = P!ModU(a, n)
Ok64 == \A a \in V64 : \A b \in V64 :
  /\ W!^^(a, b) = P!^^(a, b)           /\ W!&&(a, b) = P!&&(a, b) /\ W!||(a, b) = P!||(a, b)
  /\ W!\uplus(a, b) = P!\uplus(a, b)   /\ W!\ominus(a, b) = P!\ominus(a, b)
  /\ W!\otimes(a, b) = P!\otimes(a, b)
OkUn64 == \A a \in V64 :
  /\ W!Not64(a) = P!Not64(a) /\ W!Be64(a) = P!Be64(a) /\ W!Le64(a) = P!Le64(a)
  /\ \A n \in 0..63 : /\ W!Shl64(a, n) = P!Shl64(a, n) /\ W!Shr64(a, n) = P!Shr64(a, n)
                      /\ W!Rol64(a, n) = P!Rol64(a, n) /\ W!Ror64(a, n) = P!Ror64(a, n)
  /\ \A k \in 0..7 : W!ByteOf64(a, k) = P!ByteOf64(a, k)
OkSmall ==
  /\ \A x \in B : \A n \in 0..7 : W!Rol8(x, n) = P!Rol8(x, n) /\ W!Ror8(x, n) = P!Ror8(x, n)
  /\ \A x \in H : \A n \in 0..15 : W!Rol16(x, n) = P!Rol16(x, n) /\ W!Ror16(x, n) = P!Ror16(x, n)
  /\ \A a \in B : \A b \in B : \A p \in {27, 29, 77, 105} : W!GMul(a, b, p) = P!GMul(a, b, p)
OkSeq ==
  /\ W!Hex(Str) = P!Hex(Str) /\ Len(By) = 24
  /\ W!XorB(By, W!RevS(By)) = P!XorB(By, P!RevS(By))
  /\ W!WordsBE16(By) = P!WordsBE16(By) /\ W!WordsLE16(By) = P!WordsLE16(By)
  /\ W!WordsBE32(By) = P!WordsBE32(By) /\ W!WordsLE32(By) = P!WordsLE32(By)
  /\ W!WordsBE64(By) = P!WordsBE64(By) /\ W!WordsLE64(By) = P!WordsLE64(By)
  /\ W!BytesBE16(W!WordsBE16(By)) = By /\ P!BytesBE16(P!WordsBE16(By)) = By
  /\ W!BytesLE16(W!WordsLE16(By)) = By /\ P!BytesLE16(P!WordsLE16(By)) = By
  /\ W!BytesBE32(W!WordsBE32(By)) = By /\ P!BytesBE32(P!WordsBE32(By)) = By
  /\ W!BytesLE32(W!WordsLE32(By)) = By /\ P!BytesLE32(P!WordsLE32(By)) = By
  /\ W!BytesBE64(W!WordsBE64(By)) = By /\ P!BytesBE64(P!WordsBE64(By)) = By
  /\ W!BytesLE64(W!WordsLE64(By)) = By /\ P!BytesLE64(P!WordsLE64(By)) = By
  /\ W!XorW(W!WordsBE32(By), W!WordsLE32(By)) = P!XorW(W!WordsBE32(By), W!WordsLE32(By))
  /\ W!XorW64(W!WordsBE64(By), W!WordsLE64(By)) = P!XorW64(W!WordsBE64(By), W!WordsLE64(By))
  /\ W!Rep(7, 5) = P!Rep(7, 5) /\ W!Zeros(0) = P!Zeros(0)
  /\ W!Patch(By, 3, <<9, 8, 7>>) = P!Patch(By, 3, <<9, 8, 7>>)
  /\ W!FlattenS(<<By, <<>>, <<1>>>>) = P!FlattenS(<<By, <<>>, <<1>>>>)
  /\ LET f(a, i) == a \o <<i, a[i + 1]>> IN W!Iter(f, By, 9) = P!Iter(f, By, 9)
  /\ LET f(a, b) == Append(a, b + Len(a)) IN W!FoldS(f, <<1>>, By) = P!FoldS(f, <<1>>, By)
  /\ LET f(i) == By[i] + i IN W!Tab(f, 24) = P!Tab(f, 24)
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ Assert(Ok32, "32") /\ Assert(OkUn, "un32") /\ Assert(Ok64, "64") /\ Assert(OkUn64, "un64")
        /\ Assert(OkSmall, "small") /\ Assert(OkSeq, "seq") /\ PrintT("WORDS-OK")
=============================================================================

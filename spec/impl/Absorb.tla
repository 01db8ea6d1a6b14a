------------------------------- MODULE Absorb -------------------------------
(* What absorbs a message of any length in calls of any length, as lib/hash and lib/mac implement it:
   a buffer of one block with stale content, the number of bytes in it, a chaining value, a length;
   one byte after the other; the last block(s) on the first call that reads output; output in
   pieces; re-creation that leaves the buffer as it is.  Checked against the published construction on
   the whole message.  Six constructions:
     md      MD5, SHA-1, SHA-2, Tiger, Whirlpool: full blocks are processed at once; 80.., length
     blake   BLAKE-256/512: the same, with a bit counter for every block, 0 for one without message
     blake2  BLAKE2b/s: the last block, full or not, is processed at the end
     skein   Skein: the same, with position, first and final flags; output blocks by counter
     sponge  Keccak, SHA-3 (and the Keccak MACs): padding by exclusive or; output blocks by permutation;
             may be fed again after output
     omac    OMAC/CMAC: the last block is masked with one of two sub-keys
   The compression function, permutation or block cipher is a free symbol: the chaining value *is* the
   sequence of what was compressed. *)
EXTENDS Terms, Integers, TLC
CONSTANTS Kind, B, LF,     \* construction, block size (sponge: rate), bytes of the length field (md, blake)
          Max, OutMax, Gens
VARIABLES s,        \* the object
          n,        \* length of the message (its k-th byte is Data(g, k); sponge: since creation or last output)
          seg,      \* sponge: lengths of the earlier messages and outputs
          o,        \* bytes of output read
          ok,       \* what was read is what is due
          g
vars == <<s, n, seg, o, ok, g>>
Tok(t, k) == Atom(t, 0, <<>>, k)
Junk == [j \in 1..B |-> Tok("junk", j)]
Msg(gen, len) == [k \in 1..len |-> Data(gen, k)]
LenField(len) == [j \in 1..LF |-> Tok("len", 100 * len + j)]

\* ---- the code.  f: finished; h: chaining value; i: bytes in buf; len: length counted so far
Start(old, gen) == [old EXCEPT !.i = 0, !.len = 0, !.f = FALSE, !.oi = 0,
                               !.h = IF Kind = "omac" THEN ZeroB(B) ELSE IF Kind = "sponge" THEN <<"0">> ELSE <<>>,
                               !.buf = IF Kind = "sponge" THEN ZeroB(B) ELSE old.buf]
New(gen) == Start([buf |-> Junk, i |-> 9, len |-> 99, f |-> TRUE, oi |-> 7, h |-> <<>>], gen)
Process(t) ==
    CASE Kind = "md" -> [t EXCEPT !.h = Append(@, t.buf)]
      [] Kind = "blake" -> [t EXCEPT !.h = Append(@, <<t.buf, t.len>>)]
      [] OTHER -> t
\* byte c
Put(t, c) == [t EXCEPT !.buf = [@ EXCEPT ![t.i + 1] = c], !.i = @ + 1]
InByte(t, c) ==
    CASE Kind \in {"md", "blake"} ->
           LET u == Put(t, c) IN IF u.i = B THEN [Process([u EXCEPT !.len = @ + B]) EXCEPT !.i = 0] ELSE u
      [] Kind = "blake2" ->
           Put(IF t.i = B THEN [t EXCEPT !.len = @ + B, !.h = Append(@, <<t.buf, t.len + B, FALSE>>), !.i = 0] ELSE t, c)
      [] Kind = "skein" ->
           Put(IF t.i = B THEN [t EXCEPT !.len = @ + B, !.h = Append(@, <<t.buf, t.len + B, Len(t.h) = 0, FALSE>>), !.i = 0] ELSE t, c)
      [] Kind = "sponge" ->
           LET u == [t EXCEPT !.buf = [@ EXCEPT ![t.i + 1] = Xor(@, c)], !.i = @ + 1]
           IN IF u.i = B THEN [u EXCEPT !.h = <<"F", u.h, u.buf>>, !.buf = ZeroB(B), !.i = 0] ELSE u
      [] Kind = "omac" ->
           LET u == IF t.i = B THEN [t EXCEPT !.h = Enc(1, t.buf), !.i = 0] ELSE t
           IN [u EXCEPT !.buf = [@ EXCEPT ![u.i + 1] = Xor(u.h[u.i + 1], c)], !.i = @ + 1]
In(t, m) == LET F[k \in 0..Len(m)] == IF k = 0 THEN t ELSE InByte(F[k - 1], m[k]) IN F[Len(m)]
Fill(t, z, upto) == [t EXCEPT !.buf = [j \in 1..B |-> IF j > t.i /\ j <= upto THEN z[j] ELSE t.buf[j]], !.i = IF @ < upto THEN upto ELSE @]
L1 == Enc(1, ZeroB(B))                       \* L; Lu, Lu2 are symbols made from it
Lu(k) == [j \in 1..B |-> {<<"lu", k, L1, j>>}]
Finish(t) ==
    CASE Kind \in {"md", "blake"} ->
           LET a == Put([t EXCEPT !.len = @ + t.i], Tok("80", 0))
               over == a.i > B - LF
               b == IF over THEN [Process(Fill(a, ZeroB(B), B)) EXCEPT !.i = 0] ELSE a
               c == Fill(b, ZeroB(B), B - LF)
               d == [c EXCEPT !.buf = [j \in 1..B |-> IF j > B - LF THEN LenField(a.len)[j - (B - LF)] ELSE @[j]],
                              !.len = IF over \/ t.i = 0 THEN 0 ELSE @]
           IN [Process(d) EXCEPT !.i = 0, !.f = TRUE, !.oi = 0]
      [] Kind = "blake2" -> LET a == Fill(t, ZeroB(B), B) IN [a EXCEPT !.h = Append(@, <<a.buf, t.len + t.i, TRUE>>), !.f = TRUE, !.oi = 0]
      [] Kind = "skein" -> LET a == Fill(t, ZeroB(B), B) IN [a EXCEPT !.h = Append(@, <<a.buf, t.len + t.i, Len(t.h) = 0, TRUE>>), !.f = TRUE, !.oi = 0]
      [] Kind = "sponge" ->
           LET x1 == [t.buf EXCEPT ![t.i + 1] = Xor(@, Tok("01", 0))]
               x2 == [x1 EXCEPT ![B] = Xor(@, Tok("80", 0))]
           IN [t EXCEPT !.h = <<"F", t.h, x2>>, !.buf = ZeroB(B), !.i = 0, !.f = TRUE, !.oi = 0]
      [] Kind = "omac" ->
           LET p == [j \in 1..B |-> IF j <= t.i THEN t.buf[j] ELSE IF j = t.i + 1 THEN Xor(t.h[j], Tok("80", 0)) ELSE t.h[j]]
               q == XorB(p, Lu(IF t.i = B THEN 1 ELSE 2))
           IN [t EXCEPT !.buf = Enc(1, q), !.i = 0, !.f = TRUE, !.oi = 0]
\* one byte of output
OutByte(t) ==
    CASE Kind \in {"md", "blake", "blake2"} -> [t |-> [t EXCEPT !.oi = @ + 1], c |-> <<t.h, t.oi + 1>>]
      [] Kind = "skein" -> [t |-> [t EXCEPT !.oi = @ + 1], c |-> <<t.h, t.oi \div B, (t.oi % B) + 1>>]
      [] Kind = "sponge" ->
           LET u == IF t.i = B THEN [t EXCEPT !.h = <<"F", t.h, ZeroB(B)>>, !.i = 0] ELSE t
           IN [t |-> [u EXCEPT !.i = @ + 1], c |-> <<u.h, u.i + 1>>]
      [] Kind = "omac" -> [t |-> [t EXCEPT !.i = @ + 1], c |-> t.buf[t.i + 1]]
Out(t0, k) ==
    LET t == IF t0.f THEN t0 ELSE Finish(t0)
        F[q \in 0..k] == IF q = 0 THEN [t |-> t, o |-> <<>>] ELSE LET r == OutByte(F[q - 1].t) IN [t |-> r.t, o |-> Append(F[q - 1].o, r.c)]
    IN F[k]

\* ---- the construction, on the whole message
Pieces(m, b) == [q \in 1..(Len(m) \div b) |-> Sub(m, (q - 1) * b + 1, q * b)]
PadLen(len) == LET r == (len + 1 + LF) % B IN IF r = 0 THEN 0 ELSE B - r
Padded(gen, len) == Pieces((Msg(gen, len) \o <<Tok("80", 0)>>) \o (ZeroB(PadLen(len)) \o LenField(len)), B)
Counter(len, q) == IF q * B <= len THEN q * B ELSE IF (q - 1) * B < len THEN len ELSE 0
LazyN(len) == IF len = 0 THEN 1 ELSE (len + B - 1) \div B
LazyBlocks(gen, len) == Pieces(Msg(gen, len) \o ZeroB((LazyN(len) * B) - len), B)
Absorbed(h0, gen, len) ==
    LET p == Pieces(Msg(gen, len) \o ZeroB(B - (len % B)), B)
        m == Len(p)
        Last == LET x == [p[m] EXCEPT ![(len % B) + 1] = Xor(@, Tok("01", 0))] IN [x EXCEPT ![B] = Xor(@, Tok("80", 0))]
        F[q \in 0..m] == IF q = 0 THEN h0 ELSE <<"F", F[q - 1], IF q = m THEN Last ELSE p[q]>>
    IN F[m]
Squeezed(h, k) == LET F[q \in 0..k] == IF q = 0 THEN h ELSE <<"F", F[q - 1], ZeroB(B)>> IN F[k]
\* sponge: the state before the message, from the earlier lengths <<message, output>>
Before == LET F[q \in 0..Len(seg)] == IF q = 0 THEN <<"0">>
                ELSE Squeezed(Absorbed(F[q - 1], 10 * g + q, seg[q][1]), IF seg[q][2] = 0 THEN 0 ELSE (seg[q][2] - 1) \div B)
          IN F[Len(seg)]
Gen == IF Kind = "sponge" THEN (10 * g + Len(seg)) + 1 ELSE g
Cmac(len) ==
    LET m == LazyN(len)
        p == LazyBlocks(g, len)
        full == len > 0 /\ len % B = 0
        C[q \in 0..(m - 1)] == IF q = 0 THEN ZeroB(B) ELSE Enc(1, XorB(C[q - 1], p[q]))
        pad == IF full THEN p[m] ELSE [p[m] EXCEPT ![(len % B) + 1] = Tok("80", 0)]
    IN Enc(1, XorB(XorB(C[m - 1], pad), Lu(IF full THEN 1 ELSE 2)))
Due(len, k) ==
    CASE Kind = "md" -> <<Padded(g, len), k>>
      [] Kind = "blake" -> <<[q \in 1..Len(Padded(g, len)) |-> <<Padded(g, len)[q], Counter(len, q)>>], k>>
      [] Kind = "blake2" -> <<[q \in 1..LazyN(len) |-> <<LazyBlocks(g, len)[q], IF q * B > len THEN len ELSE q * B, q = LazyN(len)>>], k>>
      [] Kind = "skein" -> <<[q \in 1..LazyN(len) |-> <<LazyBlocks(g, len)[q], IF q * B > len THEN len ELSE q * B, q = 1, q = LazyN(len)>>], (k - 1) \div B, ((k - 1) % B) + 1>>
      [] Kind = "sponge" -> <<Squeezed(Absorbed(Before, Gen, len), (k - 1) \div B), ((k - 1) % B) + 1>>
      [] Kind = "omac" -> Cmac(len)[k]

\* ---- behaviours
Init == g = 1 /\ s = New(1) /\ n = 0 /\ o = -1 /\ ok = TRUE /\ seg = <<>>
Input(k) ==
    /\ o = -1 /\ n + k <= Max
    /\ s' = In(s, [j \in 1..k |-> Data(Gen, n + j)]) /\ n' = n + k
    /\ UNCHANGED <<o, ok, g, seg>>
Output(k) ==
    LET o0 == IF o = -1 THEN 0 ELSE o
        r == Out(s, k)
    IN /\ o0 + k <= OutMax
       /\ s' = r.t /\ o' = o0 + k
       /\ ok' = (ok /\ \A q \in 1..k : r.o[q] = Due(n, o0 + q))
       /\ UNCHANGED <<n, g, seg>>
\* a sponge goes on with a message (not an empty one: see DESIGN.md)
Again(k) ==
    /\ Kind = "sponge" /\ o >= 0 /\ Len(seg) < 1 /\ k > 0
    /\ seg' = Append(seg, <<n, o>>)
    /\ s' = In([s EXCEPT !.i = 0, !.f = FALSE], [j \in 1..k |-> Data((10 * g + Len(seg)) + 2, j)])
    /\ n' = k /\ o' = -1
    /\ UNCHANGED <<ok, g>>
Recreate == g < Gens /\ g' = g + 1 /\ s' = Start(s, g + 1) /\ n' = 0 /\ o' = -1 /\ seg' = <<>> /\ UNCHANGED ok
Next == (\E k \in 0..Max : Input(k) \/ Again(k)) \/ (\E k \in 0..OutMax : Output(k)) \/ Recreate
Spec == Init /\ [][Next]_vars
Ok == ok
\* the position in the buffer while the message comes in: Cover.tla
Step(p, k) == IF k = 0 THEN p
              ELSE IF Kind \in {"blake2", "skein", "omac"} THEN (IF (p + k) % B = 0 THEN B ELSE (p + k) % B) ELSE (p + k) % B
Position == [][(o = -1 /\ o' = -1 /\ g' = g /\ seg' = seg) => s'.i = Step(s.i, n' - n)]_vars
=============================================================================

------------------------------- MODULE Modes -------------------------------
(* The modes of operation as lib/stream/{ctr,ofb,cfb,cbc,ecb}.c implement them: state in a few
   fields (counter or previous block, keystream buffer, number of bytes of it used), bytes
   processed one after the other, calls of any length, from one buffer into another or in place,
   re-creation that overwrites only some of the fields.  Checked against the textbook definition
   on the whole message (Def), for symbolic data and block cipher (Terms).
   x encrypts or generates, y decrypts what came out of x, each in calls of its own. *)
EXTENDS Terms, Integers, FiniteSets, TLC
CONSTANTS Mode,   \* "ctr", "ofb", "cfb", "cbc", "ecb"
          B,      \* block size
          Max,    \* bytes per generation
          Gens    \* number of generations (creation, re-creations)
VARIABLES x, y,   \* the objects
          msg,    \* what x was given since it was created (prng: zeros)
          ct, pt, \* what x and y delivered
          g       \* generation
vars == <<x, y, msg, ct, pt, g>>
Mult == IF Mode \in {"cbc", "ecb"} THEN B ELSE 1
\* the first iv has a whole block, the second is short: the rest is zeros
IvLen(gen) == IF gen = 1 THEN B ELSE 1
Iv(gen) == [j \in 1..IvLen(gen) |-> Atom("iv", gen, <<>>, j)]
PadIv(gen) == Iv(gen) \o ZeroB(B - IvLen(gen))

\* ---- the code
\* counter blocks: the iv with a number added; stays symbolic
CtrBlock(gen, n) == [j \in 1..B |-> {<<"c", gen, PadIv(gen), n * 100 + j>>}]
Junk == [j \in 1..B |-> Atom("junk", 0, <<>>, j)]
Start(old, gen) ==
    CASE Mode = "ctr" -> [old EXCEPT !.n = 0, !.used = B, !.gen = gen]
      [] Mode \in {"ofb", "cfb", "cbc"} -> [old EXCEPT !.prev = PadIv(gen), !.used = B, !.gen = gen]
      [] Mode = "ecb" -> [old EXCEPT !.gen = gen]
New(gen) == Start([n |-> 77, prev |-> Junk, used |-> 55, gen |-> 0], gen)

Refill(s) ==
    IF s.used # B THEN s
    ELSE IF Mode = "ctr" THEN [s EXCEPT !.prev = Enc(s.gen, CtrBlock(s.gen, s.n)), !.n = @ + 1, !.used = 0]
    ELSE [s EXCEPT !.prev = Enc(s.gen, @), !.used = 0]
\* one step of a loop: memory m (in: m.i, out: m.o, the same when m.al), at index k
Rd(m, k) == IF m.al THEN m.o[k] ELSE m.i[k]
Byte(s0, m, k, op) ==
    LET s == Refill(s0)
        u == s.used + 1
        ks == s.prev[u]
        in == IF op = "P" THEN Zero ELSE Rd(m, k)
        out == IF op = "P" THEN ks ELSE Xor(in, ks)
        np == IF Mode # "cfb" \/ op = "P" THEN s.prev
              ELSE [s.prev EXCEPT ![u] = IF op = "E" THEN out ELSE in]
    IN [s |-> [s EXCEPT !.prev = np, !.used = u], m |-> [m EXCEPT !.o = [@ EXCEPT ![k] = out]]]
BlockOp(s, m0, k, op) ==
    LET rd(m) == [j \in 1..B |-> Rd(m, k + j - 1)]
        wr(m, b) == [m EXCEPT !.o = [j \in 1..Len(@) |-> IF j >= k /\ j < k + B THEN b[j - k + 1] ELSE @[j]]]
    IN IF Mode = "ecb" THEN [s |-> s, m |-> wr(m0, IF op = "E" THEN Enc(s.gen, rd(m0)) ELSE Dec(s.gen, rd(m0)))]
       ELSE IF op = "E"
       THEN LET m1 == wr(m0, XorB(rd(m0), s.prev))
                e == Enc(s.gen, Sub(m1.o, k, k + B - 1))
            IN [s |-> [s EXCEPT !.prev = e], m |-> wr(m1, e)]
       ELSE LET saved == rd(m0)                          \* the ciphertext is saved before out is written
                m1 == wr(m0, Dec(s.gen, rd(m0)))
                m2 == wr(m1, XorB(Sub(m1.o, k, k + B - 1), s.prev))
            IN [s |-> [s EXCEPT !.prev = saved], m |-> m2]
Run(s, in, op, alias) ==
    LET n == Len(in)
        m0 == [i |-> in, o |-> IF alias THEN in ELSE [j \in 1..n |-> Atom("junk", 1, <<>>, j)], al |-> alias]
        F[q \in 0..(n \div Mult)] ==
            IF q = 0 THEN [s |-> s, m |-> m0]
            ELSE IF Mult = 1 THEN Byte(F[q - 1].s, F[q - 1].m, q, op)
            ELSE BlockOp(F[q - 1].s, F[q - 1].m, (q - 1) * B + 1, op)
        r == F[n \div Mult]
    IN [s |-> r.s, o |-> r.m.o]

\* ---- the definition, on the whole message
Blocks(m) == [q \in 1..((Len(m) + B - 1) \div B) |-> Sub(m, (q - 1) * B + 1, IF q * B > Len(m) THEN Len(m) ELSE q * B)]
Stretch(b) == b \o ZeroB(B - Len(b))
Def(gen, m) ==
    LET bs == Blocks(m)
        n == Len(bs)
        C[q \in 0..n] == IF q = 0 THEN PadIv(gen) ELSE
             CASE Mode = "cfb" -> XorB(bs[q], Enc(gen, C[q - 1]))
               [] Mode = "cbc" -> Enc(gen, XorB(bs[q], C[q - 1]))
               [] Mode = "ecb" -> Enc(gen, bs[q])
               [] OTHER -> <<>>
        K[q \in 0..n] == IF q = 0 THEN PadIv(gen) ELSE Enc(gen, K[q - 1])
    IN Cat([q \in 1..n |->
            CASE Mode = "ctr" -> XorB(bs[q], Enc(gen, CtrBlock(gen, q - 1)))
              [] Mode = "ofb" -> XorB(bs[q], K[q])
              [] OTHER -> C[q]])

\* ---- behaviours
Init == /\ g = 1 /\ x = New(1) /\ y = New(1) /\ msg = <<>> /\ ct = <<>> /\ pt = <<>>
Encrypt(n, alias) ==
    /\ Len(msg) + n <= Max
    /\ LET in == [j \in 1..n |-> Data(g, Len(msg) + j)]
           r == Run(x, in, "E", alias)
       IN x' = r.s /\ ct' = ct \o r.o /\ msg' = msg \o in
    /\ UNCHANGED <<y, pt, g>>
Generate(n) ==
    /\ Mult = 1 /\ Len(msg) + n <= Max
    /\ LET r == Run(x, ZeroB(n), "P", FALSE)
       IN x' = r.s /\ ct' = ct \o r.o /\ msg' = msg \o ZeroB(n)
    /\ UNCHANGED <<y, pt, g>>
Decrypt(n, alias) ==
    /\ Len(pt) + n <= Len(ct)
    /\ LET r == Run(y, Sub(ct, Len(pt) + 1, Len(pt) + n), "D", alias)
       IN y' = r.s /\ pt' = pt \o r.o
    /\ UNCHANGED <<x, ct, msg, g>>
Recreate == g < Gens /\ g' = g + 1 /\ x' = Start(x, g + 1) /\ y' = Start(y, g + 1) /\ msg' = <<>> /\ ct' = <<>> /\ pt' = <<>>
Lens == {n \in 0..Max : n % Mult = 0}
Next == (\E n \in Lens, a \in BOOLEAN : Encrypt(n, a) \/ Decrypt(n, a)) \/ (\E n \in Lens : Generate(n)) \/ Recreate
Spec == Init /\ [][Next]_vars

\* however the calls were cut: the ciphertext is that of the definition, y gets the message back
CtOk == ct = Def(g, msg)
Position == [][Mult = 1 /\ g' = g => /\ x'.used % B = (x.used + (Len(msg') - Len(msg))) % B
                                      /\ y'.used % B = (y.used + (Len(pt') - Len(pt))) % B]_vars
PtOk == pt = Sub(msg, 1, Len(pt))
=============================================================================

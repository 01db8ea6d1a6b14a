--------------------------------- MODULE Ae ---------------------------------
(***************************************************************************)
(* Authenticated encryption: EAX over a block cipher and EAX2 over any     *)
(* stream cipher and MAC.                                                  *)
(*   d: [n |-> "eax", b] or [n |-> "eax2", sn, sb, mn, mb]                 *)
(* Header and ciphertext go to two MACs that start with a block of number  *)
(* 1 and 2, the nonce to one with number 0; its value is the stream's iv;  *)
(* the tag is the sum of the three.                                        *)
(***************************************************************************)
EXTENDS Bytes
LOCAL M == INSTANCE Mac
LOCAL S == INSTANCE Stream
LOCAL BB == INSTANCE Block
LOCAL SMk(d) == S!SInfo(d.sn, d.sb).mk
LOCAL MMk(d) == M!MInfo(d.mn, d.mb).mk
AInfo(d) == IF d.n = "eax" THEN [mk |-> BB!BInfo(d.b).mk, mi |-> BB!BInfo(d.b).bs, mt |-> BB!BInfo(d.b).bs]
            ELSE [mk |-> IF SMk(d) = -1 \/ MMk(d) = -1 THEN -1 ELSE SMk(d) + MMk(d),
                  mi |-> S!SInfo(d.sn, d.sb).mi, mt |-> M!MInfo(d.mn, d.mb).mt]
AMultOf(d) == IF d.n = "eax" THEN 1 ELSE S!SMultOf(d.sn, d.sb)

\* EAX2: the key is split in two: the first part is for the MAC, the rest (half, rounded up) for the stream cipher;
\* as long as neither gets more than it can take
LOCAL KeySplit(d, k) ==
    LET half == (k + 1) \div 2
        s0 == IF SMk(d) # -1 /\ half > SMk(d) THEN SMk(d) ELSE half
        m0 == k - s0
    IN IF MMk(d) # -1 /\ m0 > MMk(d) THEN MMk(d) ELSE m0
ANew(d, r, key, iv, x) ==
    LET eax == d.n = "eax"
        len == IF eax THEN BB!BInfo(d.b).bs ELSE x          \* bytes of a MAC
        mk == IF eax THEN key ELSE Take(key, KeySplit(d, Len(key)))
        sk == IF eax THEN key ELSE Drop(key, KeySplit(d, Len(key)))
        mac(i, data) == M!MIn(M!MNew(IF eax THEN "omac" ELSE d.mn, IF eax THEN d.b ELSE d.mb, r, mk, len), (Zeros(len - 1) \o <<i>>) \o data)
        nonce == M!MTag(mac(0, iv), len).o
        mi == IF eax THEN len ELSE S!SInfo(d.sn, d.sb).mi
        siv == IF mi = -1 \/ len <= mi THEN nonce ELSE Take(nonce, mi)
    IN [d |-> d, nonce |-> nonce, h |-> mac(1, <<>>), c |-> mac(2, <<>>),
        s |-> S!SNew(IF eax THEN "ctr" ELSE d.sn, IF eax THEN d.b ELSE d.sb, r, sk, siv)]
AHead(st, data) == [st EXCEPT !.h = M!MIn(@, data)]
AEnc(st, data) == LET q == S!SEnc(st.s, data) IN [st |-> [st EXCEPT !.s = q.st, !.c = M!MIn(@, q.o)], o |-> q.o]
ADecOk(st, data, o) == S!SDecOk(st.s, data, o)
ADec(st, data, o) == [st EXCEPT !.s = S!SDec(st.s, data, o), !.c = M!MIn(@, data)]
ATag(st, len) == XorB(XorB(M!MTag(st.c, len).o, M!MTag(st.h, len).o), Take(st.nonce, len))
=============================================================================

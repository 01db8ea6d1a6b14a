------------------------------- MODULE Skein -------------------------------
(* Skein 1.3: UBI chaining over Threefish, nb = block size in bytes, r = rounds of Threefish. *)
EXTENDS Bytes
LOCAL T == INSTANCE Threefish
TKey == 0
TCfg == 4
TNonce == 20
TMsg == 48
TOut == 63
LOCAL Tweak(pos, type, first, final) ==
    (Le64(pos) \o Zeros(7)) \o <<(type + (IF first THEN 64 ELSE 0)) + (IF final THEN 128 ELSE 0)>>
LOCAL Blk(nb, r, g, tweak, b) == XorB(T!Enc(T!Setup(nb \div 8, r, g, tweak), b), b)
\* UBI(g, m, type): m may be empty (one zero block at position 0)
\* when pb bytes (a 64-bit word; whole blocks) came before m and led to g
UBIFrom(nb, r, g, pb, m, type) ==
    LET cs == IF m = <<>> THEN <<<<>>>> ELSE Chunks(m, nb)
        f(h, i) == Blk(nb, r, h, Tweak(pb \uplus W64((i * nb) + Len(cs[i + 1])), type, i = 0 /\ pb = W64(0), i + 1 = Len(cs)), PadTo(cs[i + 1], nb))
    IN Iter(f, g, Len(cs))
UBI(nb, r, g, m, type) == UBIFrom(nb, r, g, W64(0), m, type)
\* blocks of a message that goes on
Blocks(nb, r, g, pb, m) ==
    LET f(h, i) == Blk(nb, r, h, Tweak(pb \uplus W64((i + 1) * nb), TMsg, i = 0 /\ pb = W64(0), FALSE), Slice(m, i * nb, nb))
    IN Iter(f, g, Len(m) \div nb)
\* configuration block: schema "SHA3", version 1, output length in bits (8 bytes)
LOCAL Config(lenbits) == (<<83, 72, 65, 51, 1, 0, 0, 0>> \o lenbits) \o Zeros(16)
Cfg(nb, r, g, lenbits) == UBI(nb, r, g, Config(lenbits), TCfg)
Bits(n) == Le64(Shl64(W64(n), 3))
\* keyed start: the key block is left out for an empty key; so are nonce blocks
Start(nb, r, key, lenbits, nonce) ==
    LET g0 == IF key = <<>> THEN Zeros(nb) ELSE UBI(nb, r, Zeros(nb), key, TKey)
        g1 == Cfg(nb, r, g0, lenbits)
    IN IF nonce = <<>> THEN g1 ELSE UBI(nb, r, g1, nonce, TNonce)
\* output block number i
OutBlock(nb, r, g, i) == UBI(nb, r, g, Le64(W64(i)), TOut)
=============================================================================

------------------------------ MODULE Rc2 ------------------------------
(* RC2 (RFC 2268), effective key length = key length. *)
EXTENDS Bytes
LOCAL Pi == Hex("d978f9c419ddb5ed28e9fd794aa0d89dc67e37832b76538e624c6488448bfba2179a59f587b34f1361456d8d09817d32") \o
    Hex("bd8f40eb86b77b0bf09521225c6b4e8254d66593ce60b21c7356c014a78cf1dc1275ca1f3bbee4d1423dd430a33cb626") \o
    Hex("6fbf0eda4669075727f21d9bbc944303f811c7f690ef3ee706c3d52fc8661ed708e8eade8052eef784aa72ac354d6a2a") \o
    Hex("961ad2715a1549744b9fd05e0418a4ecc2e0416e0f51cbcc2491af50a1f47039997c3a8523b8b47afc02365b25559731") \o
    Hex("2d5dfa98e38a92ae05df2910676cbac9d300e6cfe19ea82c6316013f58e289a90d38341bab33ffb0bb480c5fb9b1cd2e") \o
    Hex("c5f3db47e5a59c770aa62068fe7fc1ad")
LOCAL S16(x) == x % 65536
Setup(r, key) ==
    LET T == Len(key)
        up(L, j) == LET i == j + T IN Append(L, Pi[((L[i] + L[(i - T) + 1]) % 256) + 1])
        L1 == Iter(up, key, 128 - T)
        L2 == [L1 EXCEPT ![(128 - T) + 1] = Pi[L1[(128 - T) + 1] + 1]]
        down(L, j) == LET i == (127 - T) - j
                      IN [L EXCEPT ![i + 1] = Pi[(L[i + 2] \oplus L[(i + T) + 1]) + 1]]
    IN [k |-> WordsLE16(Iter(down, L2, 128 - T))]
Enc(ks, pt) ==
    LET k == ks.k
        sh == <<1, 2, 3, 5>>
        at(x, p) == x[((p + 7) % 4) + 1]
        \* p = 1..4: the word being changed
        mixw(x, p, j) == LET a == x[p]
                             b == at(x, p - 1)
                             c == at(x, p - 2)
                             d == at(x, p - 3)
                         IN [x EXCEPT ![p] = Rol16(S16(((a + k[j]) + (b & c)) + ((65535 \oplus b) & d)), sh[p])]
        mix(x, i) == LET g(y, p) == mixw(y, p + 1, ((4 * i) + p) + 1) IN Iter(g, x, 4)
        mash(x) == LET g(y, p) == [y EXCEPT ![p + 1] = S16(y[p + 1] + k[(at(y, p) % 64) + 1])] IN Iter(g, x, 4)
        f(x, i) == IF i \in {4, 10} THEN mash(mix(x, i)) ELSE mix(x, i)
    IN BytesLE16(Iter(f, WordsLE16(pt), 16))
========================================================================

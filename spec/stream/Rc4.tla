------------------------------- MODULE Rc4 -------------------------------
(* RC4; the first r bytes of the keystream are dropped. *)
EXTENDS Bytes
LOCAL Swap(p, i, j) == [p EXCEPT ![i + 1] = p[j + 1], ![j + 1] = p[i + 1]]
\* one keystream byte: [p, i, j, o]
Byte(s) == LET i == (s.i + 1) % 256
               j == (s.j + s.p[i + 1]) % 256
               p == Swap(s.p, i, j)
           IN [p |-> p, i |-> i, j |-> j, o |-> p[((p[i + 1] + p[j + 1]) % 256) + 1]]
Start(r, key) ==
    LET f(s, i) == LET j == ((s.j + s.p[i + 1]) + key[(i % Len(key)) + 1]) % 256 IN [p |-> Swap(s.p, i, j), j |-> j]
        k == Iter(f, [p |-> Tab(LAMBDA i : i - 1, 256), j |-> 0], 256)
        g(s, i) == Byte(s)
    IN Iter(g, [p |-> k.p, i |-> 0, j |-> 0, o |-> 0], r)
=============================================================================

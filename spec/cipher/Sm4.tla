------------------------------ MODULE Sm4 ------------------------------
(* SM4 (GB/T 32907-2016); round counts are rounded up to a multiple of 4, at most 32. *)
EXTENDS Bytes
LOCAL Sb == Hex("d690e9fecce13db716b614c228fb2c052b679a762abe04c3aa441326498606999c4250f491ef987a33540b43edcfac62") \o
    Hex("e4b31ca9c908e89580df94fa758f3fa64707a7fcf37317ba83593c19e6854fa8686b81b27164da8bf8eb0f4b70569d35") \o
    Hex("1e240e5e6358d1a225227c3b01217887d40046579fd327524c3602e7a0c4c89eeabf8ad240c738b5a3f7f2cef96115a1") \o
    Hex("e0ae5da49b341a55ad933230f58cb1e31df6e22e8266ca60c02923ab0d534e6fd5db3745defd8e2f03ff6a726d6c5b51") \o
    Hex("8d1baf92bbddbc7f11d95c411f105ad80ac13188a5cd7bbd2d74d012b8e5b4b08969974a0c96777e65b9f109c56ec684") \o
    Hex("18f07dec3adc4d2079ee5f3ed7cb3948")
LOCAL FK == HexW32("a3b1bac656aa3350677d9197b27022dc")
LOCAL CK(i) == WordsBE32(Tab(LAMBDA j : (((4 * i) + (j - 1)) * 7) % 256, 4))[1]
LOCAL Tau(x) == WordsBE32(<<Sb[ByteOf(x, 3) + 1], Sb[ByteOf(x, 2) + 1], Sb[ByteOf(x, 1) + 1], Sb[ByteOf(x, 0) + 1]>>)[1]
LOCAL L(x) == (x \oplus Rol(x, 2)) \oplus ((Rol(x, 10) \oplus Rol(x, 18)) \oplus Rol(x, 24))
LOCAL LS(x) == (x \oplus Rol(x, 13)) \oplus Rol(x, 23)
Setup(r, key) ==
    LET n == IF r = 0 THEN 32 ELSE ((r + 3) \div 4) * 4
        f(x, i) == LET b == Len(x) - 3
                   IN Append(x, x[b] \oplus LS(Tau(((x[b + 1] \oplus x[b + 2]) \oplus x[b + 3]) \oplus CK(i))))
    IN [n |-> n, k |-> Drop(Iter(f, XorW(WordsBE32(PadTo(key, 16)), FK), n), 4)]
Enc(ks, pt) ==
    LET f(x, i) == <<x[2], x[3], x[4], x[1] \oplus L(Tau(((x[2] \oplus x[3]) \oplus x[4]) \oplus ks.k[i + 1]))>>
    IN BytesBE32(RevS(Iter(f, WordsBE32(pt), ks.n)))
========================================================================

---- MODULE HashSelf ----
EXTENDS TLC, Bytes
MD5 == INSTANCE MD5
S1 == INSTANCE SHA1
S2 == INSTANCE SHA2_256
S5 == INSTANCE SHA2_512
T == INSTANCE Tiger
W == INSTANCE Whirlpool
B2 == INSTANCE Blake256
B5 == INSTANCE Blake512
BB == INSTANCE Blake2b
BS == INSTANCE Blake2s
K6 == INSTANCE Keccak1600
K8 == INSTANCE Keccak800
abc == <<97,98,99>>
P(n, x, h) == PrintT(<<n, Take(x, Len(Hex(h))) = Hex(h)>>)
ASSUME P("md5", MD5!Digest(abc), "900150983cd24fb0d6963f7d28e17f72")
ASSUME P("sha1", S1!Digest(abc), "a9993e364706816aba3e25717850c26c9cd0d89d")
ASSUME P("sha2", S2!Digest(0,32,abc), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
ASSUME P("sha5", S5!Digest(0,64,abc), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
ASSUME P("whirlpool", W!Digest(0,abc), "4e2448a4c6f486bb16b6562c73b4020bf3043e3a731bce721ae1b303d97e6d4c7181eebdb6c57e277d0e34957114cbd6c797fc9d95d8b582d225292076d4eef5")
ASSUME P("blake256", B2!Digest(0,<<>>,32,<<0>>), "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87")
ASSUME P("blake256-72", B2!Digest(0,<<>>,32,Zeros(72)), "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41")
ASSUME P("blake512", B5!Digest(0,<<>>,64,<<0>>), "97961587f6d970faba6d2478045de6d1fabd09b61ae50932054d52bc29d31be4ff9102b9f69e2bbdb83be13d4b9c06091e5fa0b48bd081b634058be0ec49beb3")
ASSUME P("blake512-144", B5!Digest(0,<<>>,64,Zeros(144)), "313717d608e9cf758dcb1eb0f0c3cf9fc150b2d500fb33f51c52afc99d358a2f1374b8a38bba7974e7f6ef79cab16f22ce1e649d6e01ad9589c213045d545dde")
ASSUME P("blake224", B2!Digest(0,<<>>,28,<<0>>), "4504cb0314fb2a4f7a692e696e487912fe3f2468fe312c73a5278ec5")
ASSUME P("blake2s", BS!Digest(0,<<>>,32,abc), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982")
ASSUME P("k1600", K6!F(24,Zeros(200)), "e7dde140798f25f18a47c033f9ccd584eea95aa61e2698d54d49806f304715bd")
ASSUME PrintT(K8!F(20,Zeros(100)))
ASSUME PrintT(K8!F(22,Zeros(100)))
=====

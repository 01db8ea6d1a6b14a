---- MODULE HashSelf2 ----
EXTENDS TLC, Hash
P(n, x, h) == PrintT(<<n, x = Hex(h)>>)
ASSUME P("k256", HAll("sha3",0,<<>>,32,<<>>,32), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a")
ASSUME P("s256", HAll("skein256",0,<<>>,32,<<>>,32), "c8877087da56e072870daa843f176e9453115929094c3a40c463a196c29bf7ba")
ASSUME P("s512", HAll("skein512",0,<<>>,64,<<>>,64), "bc5b4c50925519c290cc634277ae3d6257212395cba733bbad37a4af0fa06af41fca7903d06564fea7a2d3730dbdb80c1f85562dfcc070334ea4d1d9e72cba7a")
ASSUME P("s1024", HAll("skein1024",0,<<>>,128,<<>>,128), "0fff9563bb3279289227ac77d319b6fff8d7e9f09da1247b72a0a265cd6d2a62645ad547ed8193db48cff847c06494a03f55666d3b47eb4c20456c9373c86297d630d5578ebd34cb40991578f9f52b18003efa35d3da6553ff35db91b81ab890bec1b189b7f52cb2a783ebb7d823d725b0b4a71f6824e88f68f982eefc6d19c6")
=====

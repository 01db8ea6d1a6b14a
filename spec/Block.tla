------------------------------ MODULE Block ------------------------------
(***************************************************************************)
(* Block ciphers: BInfo(n) block size, largest key and tweak;              *)
(* BSched(n, r, key) the key schedule; BEnc(n, sch, tweak, pt).            *)
(* Decryption has no definition of its own: BDec is whatever plaintext     *)
(* encrypts to the given ciphertext (a cipher is a permutation).           *)
(***************************************************************************)
EXTENDS Bytes

LOCAL cThreeWay == INSTANCE ThreeWay
LOCAL cAnubis == INSTANCE Anubis
LOCAL cAria == INSTANCE Aria
LOCAL cBlowfish == INSTANCE Blowfish
LOCAL cCamellia == INSTANCE Camellia
LOCAL cCast5 == INSTANCE Cast5
LOCAL cCrax == INSTANCE Crax
LOCAL cDes == INSTANCE Des
LOCAL cIdea == INSTANCE Idea
LOCAL cKhazad == INSTANCE Khazad
LOCAL cLea == INSTANCE Lea
LOCAL cNoekeon == INSTANCE Noekeon
LOCAL cRc2 == INSTANCE Rc2
LOCAL cRc5 == INSTANCE Rc5
LOCAL cRc6 == INSTANCE Rc6
LOCAL cRectangle == INSTANCE Rectangle
LOCAL cSaferpp == INSTANCE Saferpp
LOCAL cSeed == INSTANCE Seed
LOCAL cSerpent == INSTANCE Serpent
LOCAL cShacal2 == INSTANCE Shacal2
LOCAL cSimon128 == INSTANCE Simon128
LOCAL cSimon32 == INSTANCE Simon32
LOCAL cSimon64 == INSTANCE Simon64
LOCAL cSkipjack == INSTANCE Skipjack
LOCAL cSm4 == INSTANCE Sm4
LOCAL cSpeck128 == INSTANCE Speck128
LOCAL cSpeck32 == INSTANCE Speck32
LOCAL cSpeck64 == INSTANCE Speck64
LOCAL cTea == INSTANCE Tea
LOCAL cTwofish == INSTANCE Twofish
LOCAL cXtea == INSTANCE Xtea
LOCAL cRijndael == INSTANCE Rijndael
LOCAL cSafer == INSTANCE Safer
LOCAL cGost == INSTANCE Gost
LOCAL cThreefish == INSTANCE Threefish
LOCAL cTraxL == INSTANCE TraxL
LOCAL cTraxM == INSTANCE TraxM

BInfo(n) ==
    LET i(b, k, t) == [bs |-> b, mk |-> k, mt |-> t]
    IN CASE n \in {"3way"} -> i(12, 12, 0)
         [] n \in {"aes", "rijndael128", "aria", "camellia", "lea", "saferpp", "serpent", "simon128", "speck128", "twofish"} -> i(16, 32, 0)
         [] n \in {"anubis"} -> i(16, 40, 0)
         [] n \in {"blowfish"} -> i(8, 56, 0)
         [] n \in {"cast5", "crax_s", "idea", "khazad", "rectangle", "safer", "safer_sk", "simon64", "speck64", "tea", "xtea"} -> i(8, 16, 0)
         [] n \in {"des"} -> i(8, 24, 0)
         [] n \in {"noekeon", "seed", "sm4"} -> i(16, 16, 0)
         [] n \in {"rc2"} -> i(8, 128, 0)
         [] n \in {"rc5"} -> i(8, 255, 0)
         [] n \in {"rc6"} -> i(16, 255, 0)
         [] n \in {"rijndael256"} -> i(32, 32, 0)
         [] n \in {"shacal2"} -> i(32, 64, 0)
         [] n \in {"simon32", "speck32"} -> i(4, 8, 0)
         [] n \in {"skipjack"} -> i(8, 10, 0)
         [] n \in {"threefish256", "trax_l"} -> i(32, 32, 16)
         [] n \in {"threefish512"} -> i(64, 64, 16)
         [] n \in {"threefish1024"} -> i(128, 128, 16)
         [] n \in {"trax_m"} -> i(16, 16, 8)
         [] n \in {"gost_cbr", "gost_r34"} -> i(8, 32, 0)
         [] OTHER -> i(8, 32, 0)     \* GOST with S-boxes of the caller

\* "gost(...)" with 128 digits
GostBoxes(n) == IF n = "gost_cbr" THEN cGost!CBR ELSE IF n = "gost_r34" THEN cGost!R34 
    ELSE cGost!Boxes(SubSeq(n, 6, 133))
Tweakable(n) == BInfo(n).mt > 0

BSched(n, r, key) ==
    CASE n \in {"aes", "rijndael128"} -> cRijndael!Setup(r, key, 16)
      [] n = "rijndael256" -> cRijndael!Setup(r, key, 32)
      [] n = "safer" -> cSafer!Setup(r, key, FALSE)
      [] n = "safer_sk" -> cSafer!Setup(r, key, TRUE)
      [] n \in {"threefish256", "threefish512", "threefish1024"} -> [r |-> r, key |-> key]
      [] n = "trax_l" -> cTraxL!Setup(r, key)
      [] n = "trax_m" -> cTraxM!Setup(r, key)
      [] n = "3way" -> cThreeWay!Setup(r, key)
      [] n = "anubis" -> cAnubis!Setup(r, key)
      [] n = "aria" -> cAria!Setup(r, key)
      [] n = "blowfish" -> cBlowfish!Setup(r, key)
      [] n = "camellia" -> cCamellia!Setup(r, key)
      [] n = "cast5" -> cCast5!Setup(r, key)
      [] n = "crax_s" -> cCrax!Setup(r, key)
      [] n = "des" -> cDes!Setup(r, key)
      [] n = "idea" -> cIdea!Setup(r, key)
      [] n = "khazad" -> cKhazad!Setup(r, key)
      [] n = "lea" -> cLea!Setup(r, key)
      [] n = "noekeon" -> cNoekeon!Setup(r, key)
      [] n = "rc2" -> cRc2!Setup(r, key)
      [] n = "rc5" -> cRc5!Setup(r, key)
      [] n = "rc6" -> cRc6!Setup(r, key)
      [] n = "rectangle" -> cRectangle!Setup(r, key)
      [] n = "saferpp" -> cSaferpp!Setup(r, key)
      [] n = "seed" -> cSeed!Setup(r, key)
      [] n = "serpent" -> cSerpent!Setup(r, key)
      [] n = "shacal2" -> cShacal2!Setup(r, key)
      [] n = "simon128" -> cSimon128!Setup(r, key)
      [] n = "simon32" -> cSimon32!Setup(r, key)
      [] n = "simon64" -> cSimon64!Setup(r, key)
      [] n = "skipjack" -> cSkipjack!Setup(r, key)
      [] n = "sm4" -> cSm4!Setup(r, key)
      [] n = "speck128" -> cSpeck128!Setup(r, key)
      [] n = "speck32" -> cSpeck32!Setup(r, key)
      [] n = "speck64" -> cSpeck64!Setup(r, key)
      [] n = "tea" -> cTea!Setup(r, key)
      [] n = "twofish" -> cTwofish!Setup(r, key)
      [] n = "xtea" -> cXtea!Setup(r, key)
      [] OTHER -> cGost!Setup(r, key, GostBoxes(n))

\* tweak: as last set, <<>> after (re)creation
BEnc(n, ks, tweak, pt) ==
    CASE n \in {"aes", "rijndael128", "rijndael256"} -> cRijndael!Enc(ks, pt)
      [] n \in {"safer", "safer_sk"} -> cSafer!Enc(ks, pt)
      [] n = "threefish256" -> cThreefish!Enc(cThreefish!Setup(4, ks.r, ks.key, tweak), pt)
      [] n = "threefish512" -> cThreefish!Enc(cThreefish!Setup(8, ks.r, ks.key, tweak), pt)
      [] n = "threefish1024" -> cThreefish!Enc(cThreefish!Setup(16, ks.r, ks.key, tweak), pt)
      [] n = "trax_l" -> cTraxL!Enc(ks, tweak, pt)
      [] n = "trax_m" -> cTraxM!Enc(ks, tweak, pt)
      [] n = "3way" -> cThreeWay!Enc(ks, pt)
      [] n = "anubis" -> cAnubis!Enc(ks, pt)
      [] n = "aria" -> cAria!Enc(ks, pt)
      [] n = "blowfish" -> cBlowfish!Enc(ks, pt)
      [] n = "camellia" -> cCamellia!Enc(ks, pt)
      [] n = "cast5" -> cCast5!Enc(ks, pt)
      [] n = "crax_s" -> cCrax!Enc(ks, pt)
      [] n = "des" -> cDes!Enc(ks, pt)
      [] n = "idea" -> cIdea!Enc(ks, pt)
      [] n = "khazad" -> cKhazad!Enc(ks, pt)
      [] n = "lea" -> cLea!Enc(ks, pt)
      [] n = "noekeon" -> cNoekeon!Enc(ks, pt)
      [] n = "rc2" -> cRc2!Enc(ks, pt)
      [] n = "rc5" -> cRc5!Enc(ks, pt)
      [] n = "rc6" -> cRc6!Enc(ks, pt)
      [] n = "rectangle" -> cRectangle!Enc(ks, pt)
      [] n = "saferpp" -> cSaferpp!Enc(ks, pt)
      [] n = "seed" -> cSeed!Enc(ks, pt)
      [] n = "serpent" -> cSerpent!Enc(ks, pt)
      [] n = "shacal2" -> cShacal2!Enc(ks, pt)
      [] n = "simon128" -> cSimon128!Enc(ks, pt)
      [] n = "simon32" -> cSimon32!Enc(ks, pt)
      [] n = "simon64" -> cSimon64!Enc(ks, pt)
      [] n = "skipjack" -> cSkipjack!Enc(ks, pt)
      [] n = "sm4" -> cSm4!Enc(ks, pt)
      [] n = "speck128" -> cSpeck128!Enc(ks, pt)
      [] n = "speck32" -> cSpeck32!Enc(ks, pt)
      [] n = "speck64" -> cSpeck64!Enc(ks, pt)
      [] n = "tea" -> cTea!Enc(ks, pt)
      [] n = "twofish" -> cTwofish!Enc(ks, pt)
      [] n = "xtea" -> cXtea!Enc(ks, pt)
      [] OTHER -> cGost!Enc(ks, pt)
===========================================================================

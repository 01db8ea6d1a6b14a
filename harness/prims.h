#include <kripto/block/3way.h>
#include <kripto/block/aes.h>
#include <kripto/block/anubis.h>
#include <kripto/block/aria.h>
#include <kripto/block/blowfish.h>
#include <kripto/block/camellia.h>
#include <kripto/block/cast5.h>
#include <kripto/block/crax_s.h>
#include <kripto/block/des.h>
#include <kripto/block/gost.h>
#include <kripto/block/idea.h>
#include <kripto/block/khazad.h>
#include <kripto/block/lea.h>
#include <kripto/block/noekeon.h>
#include <kripto/block/rc2.h>
#include <kripto/block/rc5.h>
#include <kripto/block/rc6.h>
#include <kripto/block/rectangle.h>
#include <kripto/block/rijndael128.h>
#include <kripto/block/rijndael256.h>
#include <kripto/block/safer.h>
#include <kripto/block/safer_sk.h>
#include <kripto/block/saferpp.h>
#include <kripto/block/seed.h>
#include <kripto/block/serpent.h>
#include <kripto/block/shacal2.h>
#include <kripto/block/simon128.h>
#include <kripto/block/simon32.h>
#include <kripto/block/simon64.h>
#include <kripto/block/skipjack.h>
#include <kripto/block/sm4.h>
#include <kripto/block/speck128.h>
#include <kripto/block/speck32.h>
#include <kripto/block/speck64.h>
#include <kripto/block/tea.h>
#include <kripto/block/threefish1024.h>
#include <kripto/block/threefish256.h>
#include <kripto/block/threefish512.h>
#include <kripto/block/trax_l.h>
#include <kripto/block/trax_m.h>
#include <kripto/block/twofish.h>
#include <kripto/block/xtea.h>
#include <kripto/hash/blake256.h>
#include <kripto/hash/blake2b.h>
#include <kripto/hash/blake2s.h>
#include <kripto/hash/blake512.h>
#include <kripto/hash/keccak1600.h>
#include <kripto/hash/keccak800.h>
#include <kripto/hash/md5.h>
#include <kripto/hash/sha1.h>
#include <kripto/hash/sha2_256.h>
#include <kripto/hash/sha2_512.h>
#include <kripto/hash/sha3.h>
#include <kripto/hash/skein1024.h>
#include <kripto/hash/skein256.h>
#include <kripto/hash/skein512.h>
#include <kripto/hash/tiger.h>
#include <kripto/hash/whirlpool.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/keccak1600.h>
#include <kripto/mac/keccak800.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/skein1024.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/xcbc.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/chacha.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/keccak1600.h>
#include <kripto/stream/keccak800.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/rc4.h>
#include <kripto/stream/salsa20.h>
#include <kripto/stream/skein1024.h>
#include <kripto/stream/skein256.h>
#include <kripto/stream/skein512.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
struct prim { const char *name; const void *d; };
static const struct prim p_block[] = {
	{"3way", &kripto_block_3way},
	{"aes", &kripto_block_aes},
	{"anubis", &kripto_block_anubis},
	{"aria", &kripto_block_aria},
	{"blowfish", &kripto_block_blowfish},
	{"camellia", &kripto_block_camellia},
	{"cast5", &kripto_block_cast5},
	{"crax_s", &kripto_block_crax_s},
	{"des", &kripto_block_des},
	{"idea", &kripto_block_idea},
	{"khazad", &kripto_block_khazad},
	{"lea", &kripto_block_lea},
	{"noekeon", &kripto_block_noekeon},
	{"rc2", &kripto_block_rc2},
	{"rc5", &kripto_block_rc5},
	{"rc6", &kripto_block_rc6},
	{"rectangle", &kripto_block_rectangle},
	{"rijndael128", &kripto_block_rijndael128},
	{"rijndael256", &kripto_block_rijndael256},
	{"safer", &kripto_block_safer},
	{"safer_sk", &kripto_block_safer_sk},
	{"saferpp", &kripto_block_saferpp},
	{"seed", &kripto_block_seed},
	{"serpent", &kripto_block_serpent},
	{"shacal2", &kripto_block_shacal2},
	{"simon128", &kripto_block_simon128},
	{"simon32", &kripto_block_simon32},
	{"simon64", &kripto_block_simon64},
	{"skipjack", &kripto_block_skipjack},
	{"sm4", &kripto_block_sm4},
	{"speck128", &kripto_block_speck128},
	{"speck32", &kripto_block_speck32},
	{"speck64", &kripto_block_speck64},
	{"tea", &kripto_block_tea},
	{"threefish1024", &kripto_block_threefish1024},
	{"threefish256", &kripto_block_threefish256},
	{"threefish512", &kripto_block_threefish512},
	{"trax_l", &kripto_block_trax_l},
	{"trax_m", &kripto_block_trax_m},
	{"twofish", &kripto_block_twofish},
	{"xtea", &kripto_block_xtea},
	{0, 0}
};
static const struct prim p_hash[] = {
	{"blake256", &kripto_hash_blake256},
	{"blake2b", &kripto_hash_blake2b},
	{"blake2s", &kripto_hash_blake2s},
	{"blake512", &kripto_hash_blake512},
	{"keccak1600", &kripto_hash_keccak1600},
	{"keccak800", &kripto_hash_keccak800},
	{"md5", &kripto_hash_md5},
	{"sha1", &kripto_hash_sha1},
	{"sha2_256", &kripto_hash_sha2_256},
	{"sha2_512", &kripto_hash_sha2_512},
	{"sha3", &kripto_hash_sha3},
	{"skein1024", &kripto_hash_skein1024},
	{"skein256", &kripto_hash_skein256},
	{"skein512", &kripto_hash_skein512},
	{"tiger", &kripto_hash_tiger},
	{"whirlpool", &kripto_hash_whirlpool},
	{0, 0}
};
static const struct prim p_mac[] = {
	{"keccak1600", &kripto_mac_keccak1600},
	{"keccak800", &kripto_mac_keccak800},
	{"skein1024", &kripto_mac_skein1024},
	{"skein256", &kripto_mac_skein256},
	{"skein512", &kripto_mac_skein512},
	{0, 0}
};
static const struct prim p_stream[] = {
	{"chacha", &kripto_stream_chacha},
	{"keccak1600", &kripto_stream_keccak1600},
	{"keccak800", &kripto_stream_keccak800},
	{"rc4", &kripto_stream_rc4},
	{"salsa20", &kripto_stream_salsa20},
	{"skein1024", &kripto_stream_skein1024},
	{"skein256", &kripto_stream_skein256},
	{"skein512", &kripto_stream_skein512},
	{0, 0}
};

import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(('name','meaning','where'),s)) for s in state],
        mechanism=[dict(zip(('name','where'),m)) for m in mech],observe_at=obs,hook_needed=None)))
p('C01','Block cipher decryption inverts encryption',
 'For every block cipher, every accepted round count, key and tweak, decrypting the encryption of a block returns the block, and encrypting the decryption of a block returns the block. This also holds after the key, the round count or the tweak has been changed on an existing object.',
 ['inputs','configurations'],'all ciphers x all round counts x all key lengths x keys x tweaks x blocks',
 'The tests use a handful of fixed vectors per cipher, almost all at the default round count and two or three key lengths, and several ciphers have one direction tested only.',
 ['lib/block.c','lib/block/*.c'],[('per-cipher encrypt/decrypt and key schedule','lib/block/*.c'),('dispatch','lib/block.c kripto_block_encrypt/kripto_block_decrypt')],
 [('round keys','expanded key of one object','lib/block/*.c struct kripto_block')],['kripto_block_create','kripto_block_recreate','kripto_block_tweak','kripto_block_encrypt','kripto_block_decrypt'])
p('C02','Block ciphers compute their published permutation',
 'For every block cipher, round count, key length, key, tweak and block, the ciphertext is the one that the cipher\'s algorithm defines (with the round count 0 meaning the standard one). Key material shorter than the maximum is extended the way the cipher specifies.',
 ['inputs','configurations'],'all ciphers x round counts x key lengths x keys x tweaks x blocks',
 'A few fixed vectors per cipher leave most S-box entries, key lengths, round counts and data-dependent branches unvisited (changing single S-box entries of some ciphers passes the tests).',
 ['lib/block/*.c','lib/block.c'],[('per-cipher key schedule and rounds','lib/block/*.c')],[],['kripto_block_create','kripto_block_encrypt','kripto_block_decrypt'])
p('C03','Hash and output splitting do not matter',
 'For every hash function, the digest depends only on the concatenation of the inputs: however a message is cut into input calls (including empty ones), and however the output is cut into output calls, the same bytes come out.',
 ['inputs','histories'],'all hash functions x messages x all ways of cutting input and output into calls',
 'The number of splittings is exponential; the tests feed whole messages, or one fixed split, of a few lengths.',
 ['lib/hash.c','lib/hash/*.c'],[('block buffering','lib/hash/*.c *_input'),('squeeze position','lib/hash/*.c *_output')],
 [('buffer and fill index','bytes not yet compressed','lib/hash/*.c struct kripto_hash buf,i')],['kripto_hash_input','kripto_hash_output'])
p('C04','Hash functions compute their published function',
 'For every hash function, every accepted round count, salt, output length and message of any length, the digest is the one that the function\'s specification defines. In particular padding and length encoding are right for every message length, including lengths around multiples of the block size and lengths whose bit count does not fit 32 bits.',
 ['inputs','configurations'],'all hash functions x round counts x salts x output lengths x messages of every length',
 'Tests cover seven of sixteen functions with short messages; boundary lengths, salts, round counts, output lengths and huge messages are not reached.',
 ['lib/hash/*.c','lib/hash.c'],[('compression, padding, counters','lib/hash/*.c')],[('length counter','message length','lib/hash/*.c struct kripto_hash len')],['kripto_hash_create','kripto_hash_input','kripto_hash_output','kripto_hash_all'])
p('C05','MACs compute their published function, however input is split',
 'For every MAC (HMAC over any hash, OMAC and XCBC over any block cipher, the keyed Keccak and Skein MACs), key, round count, tag length and message, the tag is the one that the construction defines. It does not depend on how the message is cut into input calls.',
 ['inputs','histories','configurations'],'all MACs x inner primitives x keys x tag lengths x messages x splittings',
 'Tests use a few vectors per MAC with one or two inner primitives; block-boundary lengths combined with splits, other block sizes and key lengths are not reached.',
 ['lib/mac.c','lib/mac/*.c'],[('lazy last block','lib/mac/omac.c, lib/mac/xcbc.c'),('inner/outer pads','lib/mac/hmac.c')],[('chaining value and buffer','','lib/mac/*.c struct kripto_mac')],['kripto_mac_create','kripto_mac_input','kripto_mac_tag','kripto_mac_all'])
p('C06','Block modes compute the defined mode of operation',
 'For every block cipher, the ECB, CBC, CFB, OFB and CTR streams built on it encrypt, decrypt and (CFB, OFB, CTR) generate exactly what the mode defines for every key, initialisation vector of every accepted length, and data length, including counters that carry across all their bytes.',
 ['inputs','histories','configurations'],'5 modes x all block ciphers x keys x iv lengths x data x call sequences',
 'The tests do not cover CBC, CFB, ECB and OFB at all and cover CTR with one vector; counter carries and partial blocks are never reached.',
 ['lib/stream/cbc.c','lib/stream/cfb.c','lib/stream/ctr.c','lib/stream/ecb.c','lib/stream/ofb.c','lib/stream.c'],[('chaining value','lib/stream/*.c')],[('prev / buf / used','chaining block and keystream position','lib/stream/*.c struct kripto_stream')],['kripto_stream_encrypt','kripto_stream_decrypt','kripto_stream_prng'])
p('C07','Native stream ciphers produce their defined keystream',
 'For every native stream cipher (ChaCha, Salsa20, RC4, Keccak and Skein streams), key length, initialisation vector length, round count and stream position, the keystream is the one the cipher defines.',
 ['inputs','histories','configurations'],'all stream ciphers x keys x ivs x round counts x positions',
 'Tests compare the first bytes of a few fixed keys; other key, iv and position classes, RC4 and Skein are not reached.',
 ['lib/stream/*.c'],[('block function and counter','lib/stream/*.c')],[('counter and buffer','position in the keystream','lib/stream/*.c struct kripto_stream')],['kripto_stream_create','kripto_stream_encrypt','kripto_stream_prng'])
p('C08','Streams: splitting is irrelevant, decrypt inverts encrypt',
 'For every stream cipher and mode, cutting the data into calls of any sizes the stream allows gives the same result as one call; decrypting with an equally initialised object what another encrypted, cut differently, returns the plaintext; and the generator output of a keystream cipher is the keystream it would XOR to data, continuing wherever the previous call stopped.',
 ['inputs','histories'],'all streams x call histories mixing encrypt, decrypt and generator calls of any lengths',
 'The tests make one or two calls per object; call sequences are unbounded.',
 ['lib/stream.c','lib/stream/*.c'],[('keystream position','lib/stream/*.c used/i')],[('used','bytes of the current keystream block already used','lib/stream/*.c')],['kripto_stream_encrypt','kripto_stream_decrypt','kripto_stream_prng'])
p('C09','Authenticated encryption computes EAX / EAX2',
 'For every inner cipher (and MAC, for EAX2), key, nonce, tag length, sequence of header calls and sequence of encrypt or decrypt calls, ciphertext and tag are those that the EAX and EAX2 constructions define, and do not depend on how header and data are cut into calls.',
 ['inputs','histories','configurations'],'EAX over all block ciphers, EAX2 over streams and MACs x keys x nonces x tag lengths x call histories',
 'Two fixed vectors are tested; nonce lengths other than the block size, other block sizes, splits and EAX2 are not reached.',
 ['lib/ae.c','lib/ae/eax.c','lib/ae/eax2.c'],[('three OMACs and a CTR stream','lib/ae/eax.c'),('two MACs and a stream','lib/ae/eax2.c')],[],['kripto_ae_create','kripto_ae_header','kripto_ae_encrypt','kripto_ae_decrypt','kripto_ae_tag'])
p('C10','Verification accepts exactly the genuine tag',
 'For every MAC and authenticated cipher, verification succeeds if and only if every byte of the supplied tag equals the tag that would be generated in the same state. The receiver of an authenticated message obtains the sender\'s tag, and any change to key, nonce, header, ciphertext or tag makes verification fail (except with the negligible probability of a tag collision).',
 ['inputs','histories'],'all MACs and AEs x tag lengths x all single- and multi-byte modifications',
 'The tests never call verification with a wrong tag.',
 ['lib/mac.c','lib/ae.c','lib/memory.c'],[('kripto_memory_equals','lib/memory.c'),('verify','lib/mac.c, lib/ae.c')],[],['kripto_mac_verify','kripto_ae_verify'])
p('C11','Re-creation equals creation, whatever happened before',
 'Re-initialising any object (block cipher, hash, MAC, stream, AE) with new parameters leaves it indistinguishable from a freshly created object with those parameters, whatever was done with it before and whatever its previous parameters (larger or smaller round count, key, tweak, tag or output length) were; the object keeps its primitive.',
 ['histories','inputs','configurations'],'all primitives x histories before re-creation x old and new parameters',
 'The tests re-create with the same parameters in a fixed state at most once per primitive; growing round counts take a path (reallocation) that they never enter.',
 ['lib/block.c','lib/hash.c','lib/mac.c','lib/stream.c','lib/ae.c','lib/*/*.c'],[('*_recreate of each primitive','lib/*/*.c')],[('size / rounds','capacity of the existing object','lib/block/*.c')],['kripto_block_recreate','kripto_hash_recreate','kripto_mac_recreate','kripto_stream_recreate','kripto_ae_recreate'])
p('C12','Allocation failure is reported and leaves nothing behind',
 'If any memory allocation fails during any call, the call either reports failure (null or its error code) or still gives the correct result; it never crashes, and after a failed create or re-create nothing remains allocated for that object, while other objects keep working. On success all memory of an object is returned by its destroy call.',
 ['fault_sequences','histories'],'every allocation of every creating or one-shot call failing, at every point of a history',
 'The tests never make an allocation fail and never look at leaks.',
 ['lib/*/*.c','lib/*.c'],[('error paths of create/recreate and of one-shot functions','lib/*/*.c, lib/pbkdf2.c, lib/scrypt.c')],[('heap','live allocations','malloc/free')],['all create/recreate/destroy and one-shot functions'])
p('C13','Memory safety: only the announced bytes are touched',
 'No call with valid arguments reads or writes outside the objects it was given: outputs get exactly the announced number of bytes, inputs are not modified, heap blocks are not overrun, used after release or released twice, nothing depends on uninitialised memory, and data may be at any alignment. Transforming data in place gives the same result as into a separate buffer.',
 ['inputs','histories','configurations'],'all calls x lengths x alignments x in-place or not x histories',
 'The tests use exact-size aligned buffers without guards; overruns of a few bytes, uninitialised reads and in-place use go unnoticed.',
 ['lib/*.c','lib/*/*.c','include/kripto/loadstore.h'],[('index arithmetic in every primitive','lib/*/*.c')],[],['every public function'])
p('C14','Secrets do not survive in released memory',
 'When an object is destroyed, re-created into a new allocation, or a one-shot call returns, the memory handed back to the allocator contains nothing that depends on keys, passwords or processed data.',
 ['inputs','histories'],'all primitives x keys and data x histories ending in release of memory',
 'No test looks at freed memory.',
 ['lib/memory.c','lib/*/*.c','lib/pbkdf2.c','lib/scrypt.c'],[('kripto_memory_wipe before free','lib/*/*.c *_destroy')],[],['free() calls made by the library'])
p('C15','Objects are independent, also across threads',
 'Operations on one object never influence another: interleaving calls on any number of objects, in one thread or with each object used by its own thread, gives every object the results it would have alone.',
 ['schedules','histories'],'all interleavings of calls on distinct objects, sequential and concurrent',
 'The tests use one object at a time in one thread.',
 ['lib/*/*.c','lib/*.c'],[('all state lives in the object; no writable globals','lib/*/*.c')],[],['every public function'])
p('C16','PBKDF2 computes the defined key for every parameter',
 'For every MAC, round count, iteration count, password, salt and output length (including lengths that are not multiples of the PRF output and lengths that need many blocks), the derived key is the one PBKDF2 defines with that MAC as its PRF.',
 ['inputs','configurations'],'all MACs x iteration counts x passwords x salts x output lengths',
 'The tests use HMAC-SHA1 style vectors of four lengths.',
 ['lib/pbkdf2.c'],[('block loop and counter','lib/pbkdf2.c')],[],['kripto_pbkdf2'])
p('C17','scrypt computes the defined key for every parameter',
 'For every MAC, cost N (power of two), block size r, parallelism p, password, salt and output length, the derived key is the one scrypt defines with that MAC as the PRF.',
 ['inputs','configurations'],'N x r x p x passwords x salts x output lengths',
 'The tests use the three published vectors; other shapes of N, r and p are not reached and memory-layout mistakes stay invisible.',
 ['lib/scrypt.c'],[('ROMix, BlockMix, memory layout','lib/scrypt.c')],[],['kripto_scrypt'])
p('C18','PKCS#7 padding is exact and reversible',
 'For every message length, block size up to 255 and buffer size, padding appends the defined bytes and reports the padded length, or reports failure and changes nothing when the buffer is too small; removing recovers the message length from every correctly padded buffer and rejects every buffer whose padding is malformed.',
 ['inputs'],'all message lengths x block sizes x buffer sizes x buffer contents',
 'There are no tests of this module.',
 ['lib/pkcs7.c'],[('kripto_pkcs7_add, kripto_pkcs7_rem','lib/pkcs7.c')],[],['kripto_pkcs7_add','kripto_pkcs7_rem'])
p('C19','Constant-time comparison and wiping do exactly that',
 'The memory comparison returns true if and only if all bytes are equal, for every length, position and value of the difference; the work of a comparison depends on the length only, not on the contents; wiping sets exactly the given bytes to zero.',
 ['inputs'],'all lengths, alignments, positions and values of differences',
 'Only equality of a few buffers is ever exercised, and the work done is not observed.',
 ['lib/memory.c','include/kripto/memory.h'],[('kripto_memory_equals, kripto_memory_wipe','lib/memory.c')],[],['kripto_memory_equals','kripto_memory_wipe'])
p('C20','The random source is delivered faithfully',
 'Random generation delivers, in order and without gaps, repetition or alteration, exactly the bytes of the system or configured source, and its return value is the number of bytes that really were delivered (fewer than asked when the source ends). The self-test accepts good and rejects grossly defective sources.',
 ['inputs','histories','configurations'],'sources of any content and length x sequences of request sizes',
 'There are no tests of this module.',
 ['lib/random.c'],[('read loop','lib/random.c')],[],['kripto_random_create','kripto_random_gen','kripto_random_test'])
p('C21','Advertised limits are true',
 'For every primitive, including composed ones, the advertised block size, maximum key, tweak, iv, salt, tag and output lengths are those of its specification, and every combination of lengths within the advertised limits is accepted and works; the object reports the descriptor it was made from and its data granularity.',
 ['configurations','inputs'],'all primitives and compositions x all lengths up to the advertised limits',
 'Tests use the limits implicitly for a few sizes only.',
 ['lib/block.c','lib/hash.c','lib/mac.c','lib/stream.c','lib/ae.c','include/kripto/desc/*.h'],[('descriptor tables','end of every lib/*/*.c')],[],['kripto_*_maxkey, _maxiv, _maxtag, _maxout, _maxsalt, _maxtweak, _size, _blocksize, _getdesc, _multof'])
p('C22','One-shot functions equal the incremental ones',
 'Hashing or authenticating in a single call gives the same result as creating an object, feeding the message in any pieces and reading the result, for every primitive and every parameter, and leaves nothing allocated.',
 ['inputs','configurations'],'all hashes and MACs x parameters x messages',
 'Several one-shot functions have their own code; the tests compare a few short messages.',
 ['lib/hash.c','lib/mac.c','lib/hash/*.c','lib/mac/*.c'],[('*_hash / kripto_mac_all','lib/hash/*.c, lib/mac.c')],[],['kripto_hash_all','kripto_mac_all'])
p('C23','Results do not depend on the build configuration',
 'All primitives give identical results in every supported configuration: the portable code and the code selected for the processor, with or without the byte-order macro that matches the machine, with any optimisation level and compiler.',
 ['configurations','inputs'],'configuration macros x compilers x optimisation levels x primitives x inputs',
 'The tests run one configuration.',
 ['include/kripto/loadstore.h','include/kripto/rotate.h','include/kripto/cast.h','lib/*/*.c'],[('conditional code','include/kripto/loadstore.h, include/kripto/rotate.h, lib/block/3way.c')],[],['every public function'])
p('C24','Byte-order and rotation helpers are exact',
 'The public load, store and rotate helpers compute the mathematically defined result for every value, width, byte order, count and alignment.',
 ['inputs','configurations'],'all helpers x values x counts x alignments',
 'They are only exercised through the primitives, which use a part of them; a wrong rotation macro passes all tests.',
 ['include/kripto/loadstore.h','include/kripto/rotate.h'],[('macros and inline functions','include/kripto/loadstore.h, include/kripto/rotate.h')],[],['LOAD*/STORE*/ROL*/ROR*'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
